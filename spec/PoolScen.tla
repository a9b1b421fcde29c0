------------------------------ MODULE PoolScen ------------------------------
(* Uses of a pool to be run on the real code: size, how it is obtained and  *)
(* the sizes of the parallel calls each of the callers makes.               *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS MaxSize, MaxCallers, MaxCalls, MaxTasks
VARIABLES scen, done
vars == <<scen, done>>
Pick(S) == RandomElement(S)
Init == scen = <<>> /\ done = FALSE
Sizes(s) == {0, 1, 2, 3, s - 1, s, s + 1, 2 * s, 2 * s + 1, 3 * s, 33, 64, 65} \cap 0..MaxTasks
Draw ==
  /\ scen = <<>>
  /\ \E s \in {IF Pick(1..12) = 1 THEN 0 ELSE Pick(1..MaxSize)} :
     \E c \in {Pick(1..MaxCallers)} :
     \E n \in {[i \in 1..c |-> Pick(1..MaxCalls)]} :
     \E calls \in {[i \in 1..c |-> [k \in 1..n[i] |-> Pick(Sizes(s))]]} :
       scen' = <<[s |-> s, via |-> Pick({"pool", "aware"}), calls |-> calls]>>
  /\ UNCHANGED done
Finish ==
  /\ scen # <<>> /\ ~done
  /\ PrintT("@@" \o ToJson(scen[1]))
  /\ done' = TRUE /\ UNCHANGED scen
Next == Draw \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
