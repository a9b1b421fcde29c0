------------------------------- MODULE Groups -------------------------------
(***************************************************************************)
(* Variables and groups of variables (C04).                                *)
(*                                                                         *)
(* The universe is a fixed sequence of variable objects, some of which     *)
(* have the same name with the same or another size.  A group is a         *)
(* sequence of variable objects.  Behaviours are emitted exhaustively:     *)
(* every list of at most MaxLen objects is offered to every constructor,   *)
(* and every accepted group receives every call.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS MaxLen

(* name, size; objects 1 and 2 are different objects with equal content *)
Objs == << <<"a", 2>>, <<"a", 2>>, <<"a", 3>>, <<"b", 2>>, <<"c", 3>>, <<"d", 1>> >>
O == 1..Len(Objs)
Nm(o) == Objs[o][1]
Sz(o) == Objs[o][2]
Lists == UNION {[1..n -> O] : n \in 0..MaxLen}
Distinct(g) == \A i, j \in 1..Len(g) : i # j => Nm(g[i]) # Nm(g[j])
Valid(g) == g # <<>> /\ Distinct(g)
JointSize(g) == FoldLeft(LAMBDA acc, o : acc * Sz(o), 1, g)
CanAdd(g, o) == \A i \in 1..Len(g) : Nm(g[i]) # Nm(o)
CanReplace(g, h) == Len(h) = Len(g) /\ Distinct(h) /\ \A i \in 1..Len(g) : Sz(h[i]) = Sz(g[i])
Desc(g) == [vs |-> g, size |-> JointSize(g)]

VARIABLES g,     \* the current group (or <<>> before construction)
          path,  \* operations so far
          phase
vars == <<g, path, phase>>
Init == g = <<>> /\ path = <<>> /\ phase = "new"

Out(p) == PrintT("@@" \o ToJson([spec |-> "groups", objs |-> Objs, ops |-> p]))

Construct ==
  /\ phase = "new"
  /\ \E l \in Lists :
       LET r == [o |-> "new", l |-> l, ok |-> Valid(l), d |-> IF Valid(l) THEN <<Desc(l)>> ELSE <<>>] IN
       /\ g' = IF Valid(l) THEN l ELSE <<>>
       /\ path' = <<r>>
       /\ phase' = IF Valid(l) THEN "use" ELSE "end"
       /\ (Valid(l) \/ Out(path'))

(* everything one can ask of or do to a group of the size just built *)
Use ==
  /\ phase = "use"
  /\ \/ \E o \in O :
          LET ok == CanAdd(g, o)  h == IF ok THEN Append(g, o) ELSE g IN
          /\ g' = h
          /\ path' = Append(path, [o |-> "add", v |-> o, ok |-> ok, d |-> <<Desc(h)>>])
     \/ \E l \in Lists :
          LET ok == CanReplace(g, l)  h == IF ok THEN l ELSE g IN
          /\ g' = h
          /\ path' = Append(path, [o |-> "replace", l |-> l, ok |-> ok, d |-> <<Desc(h)>>])
     \/ \E l \in {x \in Lists : Valid(x)} :
          /\ g' = g
          /\ path' = Append(path, [o |-> "eq", l |-> l, ok |-> ToSet(l) = ToSet(g), d |-> <<Desc(g)>>])
  /\ phase' = "end"
  /\ Out(path')

(* sets: subject minus removed *)
Sets ==
  /\ phase = "new"
  /\ \E a \in SUBSET {1, 3, 4, 5, 6}, b \in SUBSET {1, 3, 4, 5, 6} :
       /\ path' = <<[o |-> "minus", a |-> SetToSeq(a), b |-> SetToSeq(b), d |-> SetToSeq(a \ b)]>>
       /\ Out(path')
  /\ phase' = "end" /\ g' = <<>>

Vars ==
  /\ phase = "new"
  /\ \E n \in {"", "x", "a longer name", "0"} : \E s \in {0, 1, 2, 1000} :
       /\ path' = <<[o |-> "var", n |-> n, s |-> s, ok |-> n # "" /\ s > 0]>>
       /\ Out(path')
  /\ phase' = "end" /\ g' = <<>>

Next == Construct \/ Use \/ Sets \/ Vars
Spec == Init /\ [][Next]_vars

UniqueNames == Distinct(g)
SizeOK == g # <<>> => JointSize(g) >= 1
(* a rejected call leaves the group as it was *)
Untouched == [][\A k \in {Len(path')} : (k > 0 /\ phase = "use" /\ ~path'[k].ok) => g' = g]_vars
=============================================================================
