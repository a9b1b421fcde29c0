------------------------------ MODULE JsonFile ------------------------------
(***************************************************************************)
(* The JSON documents describing a model (C21): which ones are accepted    *)
(* and which model each accepted one denotes.  A document is               *)
(*   vars: variables (name = its index, size, observed value or -1)        *)
(*   pots: potentials, with variables, a shape (table of images, or        *)
(*         "corr"/"anti"), an optional weight (w = 0: none), a tunability  *)
(*         tag and possibly the group whose cluster owns the weight        *)
(* A valid document is drawn first, then at most one fault is injected.    *)
(* Weights are in units of 1/4, images are integers.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt
CONSTANTS MaxVars, MaxPots
Pick(S) == RandomElement(S)
VARIABLES d, done
vars == <<d, done>>
Init == d = <<>> /\ done = FALSE

Size(vs, sc) == FoldLeft(LAMBDA a, v : a * vs[v].size, 1, sc)
Combs(vs, sc) == IF Len(sc) = 1 THEN [i \in 1..vs[sc[1]].size |-> <<i - 1>>]
                 ELSE LET n == vs[sc[2]].size IN
                      [i \in 1..(vs[sc[1]].size * n) |-> <<(i - 1) \div n, (i - 1) % n>>]
Set(sc) == {sc[i] : i \in 1..Len(sc)}

(* scopes of the potentials: unary ones in any number, each pair at most once *)
RECURSIVE Scopes(_, _, _)
Scopes(n, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET a == TLCEval(Pick(1..n))  b == TLCEval(Pick(1..n)) IN
       IF a = b \/ \E i \in 1..Len(acc) : Set(acc[i]) = {a, b}
       THEN Scopes(n, k - 1, TLCEval(Append(acc, <<a>>)))
       ELSE Scopes(n, k - 1, TLCEval(Append(acc, <<a, b>>)))

(* rows of the table: some combinations, in any order, possibly assigned more than once *)
Rows(vs, sc) == LET C == TLCEval(Combs(vs, sc))
                    k == TLCEval(Pick(0..(Len(C) + 1)))
                IN TLCEval([i \in 1..k |-> [v |-> C[Pick(1..Len(C))], D |-> Pick({0, 1, 2, 3, 5, 17, 40})]])
SameSizes(vs, sc) == Len(sc) = 2 /\ vs[sc[1]].size = vs[sc[2]].size
RawPot(vs, sc) ==
  LET shape == TLCEval(IF SameSizes(vs, sc) THEN Pick({"rows", "rows", "corr", "anti"}) ELSE "rows")
      w == TLCEval(IF Pick(1..10) <= 3 THEN 0 ELSE Pick({-3, -1, 1, 2, 4, 6}))
  IN TLCEval([sc |-> sc, shape |-> shape, rows |-> IF shape = "rows" THEN Rows(vs, sc) ELSE <<>>, w |-> w,
              tun |-> IF w = 0 THEN Pick({"-", "-", "Y", "N"}) ELSE Pick({"Y", "Y", "Y", "N", "-"}), share |-> <<>>,
              num |-> Pick({"int", "dec", "exp"})])
Tunable(p) == p.w # 0 /\ p.tun = "Y"
(* group sc identifies one owner of a weight only *)
Owners(ps, sc) == {i \in 1..Len(ps) : Tunable(ps[i]) /\ Set(ps[i].sc) = Set(sc)}
(* some tunable potentials take the weight of another one, possibly written later in the file *)
(* keep: they may declare another weight, which is replaced by that of the owner *)
Shares(ps, keep) ==
  FoldLeft(LAMBDA acc, i :
     LET cand == TLCEval({j \in 1..Len(acc) : j # i /\ Tunable(acc[j]) /\ acc[j].share = <<>>
                                   /\ Owners(acc, acc[j].sc) = {j}
                                   /\ Set(acc[j].sc) # Set(acc[i].sc)
                                   /\ \A k \in 1..Len(acc) : acc[k].share # <<>> => Set(acc[k].sc) # Set(acc[j].sc)})
         used == \E j \in 1..Len(acc) : acc[j].share # <<>> /\ Set(acc[j].share) = Set(acc[i].sc)
         go == TLCEval(Pick(BOOLEAN))
     IN IF Tunable(acc[i]) /\ ~used /\ cand # {} /\ go
        THEN LET j == TLCEval(Pick(cand))  flip == TLCEval(Pick(BOOLEAN)) IN
             TLCEval([acc EXCEPT ![i].w = IF keep THEN @ ELSE acc[j].w, ![i].share = IF flip THEN Reverse(acc[j].sc) ELSE acc[j].sc])
        ELSE acc,
     ps, [i \in 1..Len(ps) |-> i])

Vars(n) == TLCEval([i \in 1..n |-> LET z == TLCEval(Pick({1, 2, 2, 3})) IN
                      [size |-> z, ev |-> IF Pick(1..4) = 1 THEN Pick(0..(z - 1)) ELSE -1]])
(* variables which no potential mentions can't be observed *)
Mentioned(ps) == UNION {Set(ps[i].sc) : i \in 1..Len(ps)}
DocOf(vs, ps) == [vars |-> [v \in 1..Len(vs) |-> IF v \in Mentioned(ps) THEN vs[v] ELSE [vs[v] EXCEPT !.ev = -1]],
                  pots |-> ps]

(***************************************************************************)
(* The model a valid document denotes                                      *)
(***************************************************************************)
Raw(vs, p) ==
  LET C == TLCEval(Combs(vs, p.sc)) IN
  [i \in 1..Len(C) |->
     CASE p.shape = "corr" -> IF C[i][1] = C[i][2] THEN 1 ELSE 0
       [] p.shape = "anti" -> IF C[i][1] = C[i][2] THEN 0 ELSE 1
       [] p.shape = "rows" -> FoldLeft(LAMBDA a, r : IF r.v = C[i] THEN r.D ELSE a, 0, p.rows)]
Fac(vs, p, w) == [sc |-> p.sc, raw |-> Raw(vs, p), w |-> w]
Denoted(doc) ==
  LET ps == doc.pots  vs == doc.vars
      cn == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : ~Tunable(ps[i]))
      own == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : Tunable(ps[i]) /\ ps[i].share = <<>>)
      mem(j) == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : ps[i].share # <<>> /\ Set(ps[i].share) = Set(ps[j].sc))
  IN [ev |-> [v \in 1..Len(vs) |-> vs[v].ev],
      used |-> [v \in 1..Len(vs) |-> v \in Mentioned(ps)],
      const |-> [k \in 1..Len(cn) |-> Fac(vs, ps[cn[k]], ps[cn[k]].w)],
      clusters |-> [k \in 1..Len(own) |->
                      <<Fac(vs, ps[own[k]], ps[own[k]].w)>>
                      \o [m \in 1..Len(mem(own[k])) |-> Fac(vs, ps[mem(own[k])[m]], ps[own[k]].w)]]]

(***************************************************************************)
(* Faults: the document with one of them must be rejected                  *)
(***************************************************************************)
Faults == {"none", "unknown_var", "three_vars", "no_vars", "repeated_in_pot", "repeated_var", "repeated_var_size",
           "negative", "out_of_range", "comb_long", "comb_short", "no_Variables", "no_Potentials", "no_name", "no_Size",
           "no_pot_Variables", "no_v", "no_D", "size0", "empty_name", "ev_range", "share_unknown", "pair_twice",
           "pair_twice_flipped", "bad_corr", "corr_sizes", "corr_unary", "no_Distr", "garbage", "truncated", "no_file",
           "name_number", "v_string"}
Rowed(ps) == {i \in 1..Len(ps) : ps[i].shape = "rows"}
(* where the fault goes: index of a variable, of a potential or of a row of it; 0 when impossible *)
Place(doc, f) ==
  LET ps == doc.pots  vs == doc.vars
      rowed == {i \in 1..Len(ps) : ps[i].rows # <<>>}
      pairs == {i \in 1..Len(ps) : Len(ps[i].sc) = 2}
  IN CASE f \in {"none", "no_Variables", "no_Potentials", "garbage", "truncated", "no_file"} -> {1}
       [] f \in {"unknown_var", "three_vars", "no_vars", "repeated_in_pot", "no_pot_Variables"} -> 1..Len(ps)
       \* better where the option is all that is wrong
       [] f = "bad_corr" -> LET fit == {i \in pairs : SameSizes(vs, ps[i].sc)} IN IF fit = {} THEN 1..Len(ps) ELSE fit
       [] f \in {"negative", "out_of_range", "comb_long", "comb_short", "no_v", "no_D", "v_string"} -> rowed
       [] f \in {"repeated_var", "repeated_var_size", "no_name", "no_Size", "size0", "empty_name", "name_number"} -> 1..Len(vs)
       [] f = "ev_range" -> Mentioned(ps)
       [] f \in {"pair_twice", "pair_twice_flipped"} -> pairs
       [] f = "share_unknown" -> {i \in 1..Len(ps) : Tunable(ps[i]) /\ ps[i].share = <<>>}
       [] f = "corr_sizes" -> {i \in pairs : ~SameSizes(vs, ps[i].sc)}
       [] f = "corr_unary" -> (1..Len(ps)) \ pairs
       [] f = "no_Distr" -> Rowed(ps)
(* a group which owns no weight in the document *)
NoOwner(doc) == {v \in 1..Len(doc.vars) : Owners(doc.pots, <<v>>) = {}}

Draw ==
  /\ d = <<>>
  /\ \E n \in {Pick(1..MaxVars)} :
     \E vs \in {Vars(n)} :
     \E scs \in {Scopes(n, Pick(1..MaxPots), <<>>)} :
     \E ps0 \in {TLCEval([i \in 1..Len(scs) |-> RawPot(vs, scs[i])])} :
     \E into \in {Pick({"rf", "rf", "graph"})} :
     \E ps \in {Shares(ps0, into = "rf")} :
     \E doc \in {DocOf(vs, ps)} :
     \E f0 \in {IF Pick(1..3) = 1 THEN "none" ELSE Pick(Faults)} :
     \E at \in {IF Place(doc, f0) = {} THEN 0 ELSE Pick(Place(doc, f0))} :
     \E f \in {IF at = 0 \/ (f0 = "share_unknown" /\ NoOwner(doc) = {}) THEN "none" ELSE f0} :
     d' = <<[doc |-> doc, fault |-> f, at |-> at, pick |-> Pick(1..1000),
             own |-> IF f = "share_unknown" THEN Pick(NoOwner(doc)) ELSE 0,
             into |-> into, via |-> IF f \in {"garbage", "truncated", "no_file"} THEN "file"
                                                           ELSE Pick({"file", "mem"})]>>
  /\ UNCHANGED done
Finish ==
  /\ d # <<>> /\ ~done
  /\ PrintT("@@" \o ToJson(d[1] @@ [ok |-> d[1].fault = "none", model |-> Denoted(d[1].doc)]))
  /\ done' = TRUE /\ UNCHANGED d
Spec == Init /\ [][Draw \/ Finish]_vars

(***************************************************************************)
(* Sanity of the specification: every potential is denoted exactly once.   *)
(***************************************************************************)
Total == d # <<>> =>
  LET m == Denoted(d[1].doc) IN
  Len(m.const) + FoldLeft(LAMBDA a, c : a + Len(c), 0, m.clusters) = Len(d[1].doc.pots)
=============================================================================
