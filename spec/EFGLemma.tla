------------------------------ MODULE EFGLemma ------------------------------
(***************************************************************************)
(* The elimination operators of EFGMath, used by EFGModel to give the      *)
(* answers on acyclic models, agree with the definitions by enumeration;   *)
(* max-marginals have unique maximisers exactly when the most probable     *)
(* assignment is unique.  Checked on randomly drawn trees with evidences.  *)
(***************************************************************************)
EXTENDS EFGMath, Randomization
CONSTANTS NV, Sizes
V == 1..NV
VARIABLES sz, F, ev, n
vars == <<sz, F, ev, n>>
Pick(S) == RandomElement(S)

Init == sz = <<>> /\ F = <<>> /\ ev = <<>> /\ n = 0

Fac(sc) == [sc |-> sc, raw |-> CHOOSE t \in RandomSubset(1, [1..TabSize(sz', sc) -> 0..3]) : TRUE,
            k |-> Pick({"plain", "plain", "exp"}), w |-> Pick(-1..2)]
(* variable i>1 is attached to a random previous one (or starts a new part) *)
Draw ==
  /\ n < 1
  /\ \E z \in RandomSubset(1, [V -> 1..Len(Sizes)]) : sz' = [v \in V |-> Sizes[z[v]]]
  /\ \E par \in RandomSubset(1, {f \in [V -> 0..NV] : \A v \in V : f[v] < v}) :
       LET bin == FlattenSeq([v \in V |-> IF par[v] = 0 THEN <<>> ELSE
                     <<Fac(IF Pick(BOOLEAN) THEN <<par[v], v>> ELSE <<v, par[v]>>)>>])
           un == [i \in 1..Pick(0..NV) |-> Fac(<<Pick(V)>>)]
       IN F' = bin \o un
  /\ \E z \in RandomSubset(1, [V -> 0..7]) : ev' = [v \in V |-> IF z[v] >= 5 THEN z[v] % sz'[v] ELSE -1]
  /\ n' = n + 1
Next == Draw
Spec == Init /\ [][Next]_vars

H == {v \in V : ev[v] < 0}
FS == {F[i] : i \in 1..Len(F)}
Agree ==
  n = 0 \/ \A C \in Components(FS, H) :
     LET w == Weights(sz, ev, C, F)
         T == TreeOf(sz, ev, C, F)
         cs == SortedSeq(C)
     IN /\ IsTree(C, FS, H)
        /\ \A v \in C : Belief(sz, T, v, FALSE) = Marginal(sz, C, w, v)
        /\ \A v \in C : Belief(sz, T, v, TRUE) = MaxMarginal(sz, C, w, v)
        /\ \A S \in {X \in SUBSET C : X # {} /\ Cardinality(X) <= 3 /\ ConnectedSet(X, FS)} :
              SubtreeTable(sz, T, SortedSeq(S)) = JointTable(sz, C, w, SortedSeq(S))
        /\ SeqSum(w) > 0 /\ Cardinality(ArgMax(w)) = 1 =>
              \A v \in C : LET q == Belief(sz, T, v, TRUE)  i == CHOOSE x \in ArgMax(w) : TRUE IN
                 {x \in 1..Len(q) : q[x] = SeqMax(q)} =
                    {1 + (((i - 1) \div Strides(sz, cs)[PosIn(cs, v)]) % sz[v])}
=============================================================================
