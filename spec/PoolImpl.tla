------------------------------ MODULE PoolImpl ------------------------------
(***************************************************************************)
(* The algorithm of the pool: one pointer per worker used as hand-off and  *)
(* completion flag, a mutex serialising the calls, the caller acting as    *)
(* worker 0.  All the interleavings of callers, workers and owner (which   *)
(* constructs and, after the calls returned, destroys the pool) are        *)
(* explored; the algorithm must refine Pool and every call and the         *)
(* destruction must terminate.                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Callers, MaxSize, MaxTasks, MaxCalls

VARIABLES size, num, todo, left, busy,        \* observable (of Pool)
          pc,      \* process -> location
          k,       \* process -> task index being processed
          ptr,     \* worker -> caller whose tasks it has to process, or 0
          life, lock,
          made,    \* caller -> calls made
          j,       \* caller -> worker examined while handing off / waiting
          wait     \* caller -> some worker was found busy
ivars == <<size, num, todo, left, busy, pc, k, ptr, life, lock, made, j, wait>>
P == INSTANCE Pool

Workers == 1..(MaxSize - 1)
Mine == 1..(size - 1)
OWNER == <<"o", 0>>
W(w) == <<"w", w>>
C(c) == <<"c", c>>
Procs == {OWNER} \cup {W(w) : w \in Workers} \cup {C(c) : c \in Callers}

Init ==
  /\ P!PInit
  /\ pc = [p \in Procs |-> IF p = OWNER THEN "new" ELSE IF p[1] = "w" THEN "off" ELSE "idle"]
  /\ k = [p \in Procs |-> 0]
  /\ ptr = [w \in Workers |-> 0]
  /\ life = TRUE /\ lock = 0
  /\ made = [c \in Callers |-> 0]
  /\ j = [c \in Callers |-> 0] /\ wait = [c \in Callers |-> FALSE]

Go(p, l) == pc' = [pc EXCEPT ![p] = l]
PU == UNCHANGED <<size, num, todo, left, busy>>

(* owner *)
Construct ==
  /\ pc[OWNER] = "new"
  /\ \E s \in 1..MaxSize : P!New(s)
     /\ pc' = [p \in Procs |-> IF p = OWNER THEN "own"
                               ELSE IF p[1] = "w" /\ p[2] < s THEN "life" ELSE pc[p]]
  /\ UNCHANGED <<k, ptr, life, lock, made, j, wait>>
AllReturned == \A c \in Callers : pc[C(c)] = "idle" /\ made[c] = MaxCalls
Kill ==
  /\ pc[OWNER] = "own" /\ AllReturned
  /\ life' = FALSE /\ Go(OWNER, "join")
  /\ PU /\ UNCHANGED <<k, ptr, lock, made, j, wait>>
Join ==
  /\ pc[OWNER] = "join" /\ \A w \in Mine : pc[W(w)] = "off"
  /\ P!Destroy /\ Go(OWNER, "end")
  /\ UNCHANGED <<k, ptr, life, lock, made, j, wait>>

(* tasks k, k + size, k + 2 size... of the call of c, executed by p acting as worker w *)
RunTask(p, c, w, next) ==
  \/ /\ pc[p] = "run" /\ k[p] < num[c]
     /\ P!Begin(c, k[p], w) /\ Go(p, "in")
     /\ UNCHANGED <<k, ptr, life, lock, made, j, wait>>
  \/ /\ pc[p] = "in"
     /\ P!End(c, k[p], w) /\ Go(p, "run")
     /\ k' = [k EXCEPT ![p] = @ + size]
     /\ UNCHANGED <<ptr, life, lock, made, j, wait>>
  \/ /\ pc[p] = "run" /\ k[p] >= num[c]
     /\ Go(p, next)
     /\ PU /\ UNCHANGED <<k, ptr, life, lock, made, j, wait>>

Worker(w) ==
  LET p == W(w) IN
  \/ /\ pc[p] = "life"
     /\ Go(p, IF life THEN "look" ELSE "off")
     /\ PU /\ UNCHANGED <<k, ptr, life, lock, made, j, wait>>
  \/ /\ pc[p] = "look"
     /\ IF ptr[w] = 0 THEN Go(p, "life") /\ UNCHANGED k
        ELSE Go(p, "run") /\ k' = [k EXCEPT ![p] = w]
     /\ PU /\ UNCHANGED <<ptr, life, lock, made, j, wait>>
  \/ ptr[w] # 0 /\ RunTask(p, ptr[w], w, "clear")
  \/ /\ pc[p] = "clear"
     /\ ptr' = [ptr EXCEPT ![w] = 0] /\ Go(p, "life")
     /\ PU /\ UNCHANGED <<k, life, lock, made, j, wait>>

Caller(c) ==
  LET p == C(c) IN
  \/ /\ pc[p] = "idle" /\ made[c] < MaxCalls /\ size > 0
     /\ \E n \in 0..MaxTasks : P!Call(c, n)
     /\ made' = [made EXCEPT ![c] = @ + 1] /\ Go(p, "lock")
     /\ UNCHANGED <<k, ptr, life, lock, j, wait>>
  \/ /\ pc[p] = "lock" /\ lock = 0
     /\ lock' = c /\ j' = [j EXCEPT ![c] = 1] /\ Go(p, "give")
     /\ PU /\ UNCHANGED <<k, ptr, life, made, wait>>
  \/ /\ pc[p] = "give" /\ j[c] < size
     /\ ptr' = [ptr EXCEPT ![j[c]] = c] /\ j' = [j EXCEPT ![c] = @ + 1]
     /\ PU /\ UNCHANGED <<pc, k, life, lock, made, wait>>
  \/ /\ pc[p] = "give" /\ j[c] >= size
     /\ Go(p, "run") /\ k' = [k EXCEPT ![p] = 0]
     /\ PU /\ UNCHANGED <<ptr, life, lock, made, j, wait>>
  \/ RunTask(p, c, 0, "wait")
  \/ /\ pc[p] = "wait"
     /\ j' = [j EXCEPT ![c] = 1] /\ Go(p, "poll")
     /\ PU /\ UNCHANGED <<k, ptr, life, lock, made, wait>>
  \/ /\ pc[p] = "poll" /\ j[c] < size
     /\ IF ptr[j[c]] # 0 THEN Go(p, "wait") /\ UNCHANGED j
        ELSE j' = [j EXCEPT ![c] = @ + 1] /\ UNCHANGED pc
     /\ PU /\ UNCHANGED <<k, ptr, life, lock, made, wait>>
  \/ /\ pc[p] = "poll" /\ j[c] >= size
     /\ lock' = 0 /\ Go(p, "ret")
     /\ PU /\ UNCHANGED <<k, ptr, life, made, j, wait>>
  \/ /\ pc[p] = "ret"
     /\ P!Return(c) /\ Go(p, "idle")
     /\ UNCHANGED <<k, ptr, life, lock, made, j, wait>>

Next == Construct \/ Kill \/ Join \/ (\E w \in Workers : Worker(w)) \/ (\E c \in Callers : Caller(c))
Spec == /\ Init /\ [][Next]_ivars
        /\ WF_ivars(Construct) /\ WF_ivars(Kill) /\ WF_ivars(Join)
        /\ \A w \in Workers : WF_ivars(Worker(w))
        /\ \A c \in Callers : SF_ivars(Caller(c))

Refines == P!PSpec
AllEnd == <>(pc[OWNER] = "end")
OneCall == P!OneCall
RunningInCall == P!RunningInCall
IdleWhenGone == P!IdleWhenGone
NoTwice == P!NoTwice
=============================================================================
