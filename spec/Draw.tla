-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* Discrete draws (C15): a distribution w[k]/sum(w) and a seed; a draw     *)
(* returns index k-1 for some k with w[k] > 0, and the number of times k   *)
(* is returned over n draws is binomial with probability w[k]/sum(w).      *)
(* The same seed gives the same draws.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS MaxLen
VARIABLES d, done
vars == <<d, done>>
Pick(S) == RandomElement(S)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Special == {1407677000, 0, 1, 2147483646}    \* the first makes the generator return exactly 0
Init == d = <<>> /\ done = FALSE
Draw ==
  /\ d = <<>>
  /\ \E n \in {IF Pick(1..5) = 1 THEN Pick({12, 30}) ELSE Pick(1..MaxLen)} :
     \E kind \in {Pick({"any", "zeros", "one", "tiny"})} :
     \E w \in {[k \in 1..n |-> CASE kind = "any" -> Pick(1..9)
                                 [] kind = "zeros" -> Pick({0, 0, 1, 5})
                                 [] kind = "one" -> 0
                                 [] kind = "tiny" -> Pick({1, 1000, 1000000})]} :
     \E one \in {Pick(1..n)} :
     \E w2 \in {IF Sum(w) = 0 THEN [w EXCEPT ![one] = 3] ELSE w} :
     \E s \in {IF Pick(1..3) = 1 THEN Pick(Special) ELSE Pick(0..1000000)} :
       d' = <<[spec |-> "draw", w |-> w2, tot |-> Sum(w2), seed |-> s,
               support |-> [k \in 1..n |-> w2[k] > 0]]>>
  /\ UNCHANGED done
Finish == d # <<>> /\ ~done /\ PrintT("@@" \o ToJson(d[1])) /\ done' = TRUE /\ UNCHANGED d
Spec == Init /\ [][Draw \/ Finish]_vars
=============================================================================
