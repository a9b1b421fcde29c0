----------------------------- MODULE GroupHist -----------------------------
(***************************************************************************)
(* Histories over several groups of variables (C04), with more variables   *)
(* than the exhaustive module Groups can afford.  Every call changes one   *)
(* group at most; after each of them all the groups are observed.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS NObj, Depth
Pick(S) == RandomElement(S)

VARIABLES objs,  \* variable objects: <<name, size>>; names may repeat
          gs, log, done
vars == <<objs, gs, log, done>>
Init == objs = <<>> /\ gs = <<>> /\ log = <<>> /\ done = FALSE
More == ~done /\ objs # <<>> /\ Len(log) < Depth
O == 1..NObj
Nm(o) == objs[o][1]
Sz(o) == objs[o][2]
Distinct(g) == \A i, j \in 1..Len(g) : i # j => Nm(g[i]) # Nm(g[j])
JointSize(g) == FoldLeft(LAMBDA a, o : a * Sz(o), 1, g)
Desc(g) == [vs |-> g, size |-> JointSize(g)]
Small(g) == FoldLeft(LAMBDA a, o : IF a > 1000000 THEN a ELSE a * Sz(o), 1, g) <= 1000000

Names == <<"a", "aa", "ab", "b", "a b", "A", "1", "10", "01", "zz", "z", "aaa", "-", "_", "x1", "x10">>
Setup ==
  /\ objs = <<>> /\ ~done
  /\ \E q \in {TLCEval([i \in O |-> <<Names[Pick(1..Len(Names))], Pick({1, 2, 2, 3, 3, 4, 7})>>])} : objs' = q
  /\ UNCHANGED <<gs, log, done>>

Emit(r, n) == log' = Append(log, r @@ [all |-> [i \in 1..Len(n) |-> Desc(n[i])]])

(* a list of n objects, usually with distinct names *)
RECURSIVE Draw(_, _)
Draw(n, acc) ==
  IF n = 0 THEN acc
  ELSE LET free == {o \in O : \A i \in 1..Len(acc) : Nm(acc[i]) # Nm(o)}
           o == CHOOSE x \in {IF free = {} \/ Pick(1..40) = 1 THEN Pick(O) ELSE Pick(free)} : TRUE
       IN Draw(n - 1, Append(acc, o))

New ==
  /\ More /\ Len(gs) < 5
  /\ \E l \in {TLCEval(Draw(Pick({0, 1, 2, 3, 5, 8}), <<>>))} :
       LET ok == l # <<>> /\ Distinct(l)  n == IF ok THEN Append(gs, l) ELSE gs IN
       Small(l) /\ gs' = n /\ Emit([o |-> "new", l |-> l, ok |-> ok], n)
  /\ UNCHANGED <<objs, done>>

CopyG ==
  /\ More /\ gs # <<>> /\ Len(gs) < 5
  /\ \E i \in {Pick(1..Len(gs))} : gs' = Append(gs, gs[i]) /\ Emit([o |-> "copy", i |-> i], gs')
  /\ UNCHANGED <<objs, done>>

Assign ==
  /\ More /\ gs # <<>>
  /\ \E i \in {Pick(1..Len(gs))} : \E j \in {Pick(1..Len(gs))} :
       gs' = [gs EXCEPT ![i] = gs[j]] /\ Emit([o |-> "assign", i |-> i, j |-> j], gs')
  /\ UNCHANGED <<objs, done>>

AddV ==
  /\ More /\ gs # <<>>
  /\ \E i \in {Pick(1..Len(gs))} : \E o \in {Pick(O)} :
       LET ok == \A k \in 1..Len(gs[i]) : Nm(gs[i][k]) # Nm(o)
           n == IF ok THEN [gs EXCEPT ![i] = Append(@, o)] ELSE gs
       IN Small(n[i]) /\ gs' = n /\ Emit([o |-> "add", i |-> i, v |-> o, ok |-> ok], n)
  /\ UNCHANGED <<objs, done>>

(* mostly lists with the right sizes *)
RECURSIVE Fit(_, _)
Fit(g, acc) ==
  IF Len(acc) = Len(g) THEN acc
  ELSE LET k == Len(acc) + 1
           good == {o \in O : Sz(o) = Sz(g[k]) /\ \A i \in 1..Len(acc) : Nm(acc[i]) # Nm(o)}
           o == CHOOSE x \in {IF good = {} \/ Pick(1..20) = 1 THEN Pick(O) ELSE Pick(good)} : TRUE
       IN Fit(g, Append(acc, o))
Replace ==
  /\ More /\ gs # <<>>
  /\ \E i \in {Pick(1..Len(gs))} :
     \E l \in {TLCEval(LET k == Pick(1..8) IN IF k = 1 THEN Draw(Pick({1, 2, 3}), <<>>)
                       ELSE IF k = 2 THEN Append(Fit(gs[i], <<>>), Pick(O))
                       ELSE IF k = 3 THEN Reverse(gs[i]) ELSE Fit(gs[i], <<>>))} :
       LET ok == Len(l) = Len(gs[i]) /\ Distinct(l) /\ \A k \in 1..Len(l) : Sz(l[k]) = Sz(gs[i][k])
           n == IF ok THEN [gs EXCEPT ![i] = l] ELSE gs
       IN gs' = n /\ Emit([o |-> "replace", i |-> i, l |-> l, ok |-> ok], n)
  /\ UNCHANGED <<objs, done>>

Equal ==
  /\ More /\ gs # <<>>
  /\ \E i \in {Pick(1..Len(gs))} : \E j \in {Pick(1..Len(gs))} :
       Emit([o |-> "eq", i |-> i, j |-> j, ok |-> ToSet(gs[i]) = ToSet(gs[j])], gs)
  /\ UNCHANGED <<objs, gs, done>>

(* the variables of a group minus those of another *)
Minus ==
  /\ More /\ gs # <<>>
  /\ \E i \in {Pick(1..Len(gs))} : \E j \in {Pick(1..Len(gs))} :
       \* two objects with the same name and different identities: not specified
       /\ \A a \in ToSet(gs[i]), b \in ToSet(gs[j]) : Nm(a) = Nm(b) => a = b
       /\ Emit([o |-> "minus", i |-> i, j |-> j, d |-> SetToSeq(ToSet(gs[i]) \ ToSet(gs[j]))], gs)
  /\ UNCHANGED <<objs, gs, done>>

Finish ==
  /\ ~done /\ Len(log) >= Depth
  /\ PrintT("@@" \o ToJson([spec |-> "grouphist", objs |-> objs, ops |-> log]))
  /\ done' = TRUE
  /\ UNCHANGED <<objs, gs, log>>
Add2 == AddV
Next == Setup \/ New \/ CopyG \/ Assign \/ AddV \/ Add2 \/ Replace \/ Equal \/ Minus \/ Finish
Spec == Init /\ [][Next]_vars
UniqueNames == \A i \in 1..Len(gs) : gs[i] # <<>> /\ Distinct(gs[i])
=============================================================================
