-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* What a user of the worker pool can observe (C12).                       *)
(*                                                                         *)
(* A pool of `size' workers executes the tasks of one parallel call at a   *)
(* time.  The actions are the observable events: construction, start of a  *)
(* call, begin and end of a task on a worker, return of a call,            *)
(* destruction.  Which worker takes which task and in which order is left  *)
(* open.  PoolImpl refines this specification; PoolTrace checks events     *)
(* recorded from the real pool against it.                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Callers,   \* threads that make parallel calls
          MaxSize    \* of a pool

VARIABLES size,   \* 0: no pool
          num,    \* caller -> number of tasks of its call, -1 when it is not in a call
          todo,   \* caller -> tasks of its call not begun
          left,   \* caller -> tasks of its call not ended
          busy    \* worker -> <<caller, task>> or <<>>
pvars == <<size, num, todo, left, busy>>

PInit ==
  /\ size = 0
  /\ num = [c \in Callers |-> -1]
  /\ todo = [c \in Callers |-> {}]
  /\ left = [c \in Callers |-> {}]
  /\ busy = [w \in 0..(MaxSize - 1) |-> <<>>]

New(s) ==
  /\ size = 0 /\ s > 0
  /\ size' = s
  /\ UNCHANGED <<num, todo, left, busy>>

Call(c, n) ==
  /\ size > 0 /\ num[c] = -1
  /\ num' = [num EXCEPT ![c] = n]
  /\ todo' = [todo EXCEPT ![c] = 0..(n - 1)]
  /\ left' = [left EXCEPT ![c] = 0..(n - 1)]
  /\ UNCHANGED <<size, busy>>

(* some task of the call of d was begun, and not all of them ended *)
Active(d) == todo[d] # 0..(num[d] - 1) /\ left[d] # {}

Begin(c, t, w) ==
  /\ t \in todo[c]                               \* exactly once, within the call
  /\ w \in 0..(size - 1) /\ busy[w] = <<>>       \* a valid worker, which is free
  /\ \A d \in Callers \ {c} : ~Active(d)         \* calls do not overlap
  /\ todo' = [todo EXCEPT ![c] = @ \ {t}]
  /\ busy' = [busy EXCEPT ![w] = <<c, t>>]
  /\ UNCHANGED <<size, num, left>>

End(c, t, w) ==
  /\ busy[w] = <<c, t>>
  /\ busy' = [busy EXCEPT ![w] = <<>>]
  /\ left' = [left EXCEPT ![c] = @ \ {t}]
  /\ UNCHANGED <<size, num, todo>>

Return(c) ==
  /\ num[c] >= 0 /\ left[c] = {}                 \* all the tasks ended
  /\ num' = [num EXCEPT ![c] = -1]
  /\ todo' = [todo EXCEPT ![c] = {}]
  /\ UNCHANGED <<size, left, busy>>

Destroy ==
  /\ size > 0 /\ \A c \in Callers : num[c] = -1
  /\ size' = 0
  /\ UNCHANGED <<num, todo, left, busy>>

CONSTANT MaxTasks
PNext ==
  \/ \E s \in 1..MaxSize : New(s)
  \/ \E c \in Callers, n \in 0..MaxTasks : Call(c, n)
  \/ \E c \in Callers, t \in 0..MaxTasks, w \in 0..(MaxSize - 1) : Begin(c, t, w) \/ End(c, t, w)
  \/ \E c \in Callers : Return(c)
  \/ Destroy
PSpec == PInit /\ [][PNext]_pvars

(***************************************************************************)
(* Consequences                                                            *)
(***************************************************************************)
Running == {busy[w] : w \in 0..(MaxSize - 1)} \ {<<>>}
OneCall == \A x, y \in Running : x[1] = y[1]
RunningInCall == \A x \in Running : x[2] \in left[x[1]] /\ x[2] \notin todo[x[1]]
IdleWhenGone == size = 0 => Running = {}
NoTwice == \A v, w \in 0..(MaxSize - 1) : busy[v] = busy[w] /\ v # w => busy[v] = <<>>
=============================================================================
