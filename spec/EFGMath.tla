------------------------------ MODULE EFGMath ------------------------------
(***************************************************************************)
(* The mathematics of discrete factor graphs, in exact integer arithmetic. *)
(*                                                                         *)
(* Variables are 1..NV; sz[v] is the number of values of v (values are     *)
(* 0..sz[v]-1).  A factor is a record                                      *)
(*    [sc |-> scope (sequence of 1 or 2 variables),                        *)
(*     raw |-> raw images, flat, row-major (last variable fastest),        *)
(*     k |-> "plain" | "exp" | "frozen",  w |-> integer weight]            *)
(* The image of an "exp" factor with integer weight w stands for the real  *)
(* weight w*ln(2): exp(w*ln2*raw) = 2^(w*raw), an integer up to a scale    *)
(* that does not matter for any answer.  "frozen" is a deep copy of the    *)
(* images of an exponential factor (a plain factor with those images).     *)
(* An assignment of evidences is a sequence ev with -1 for "hidden".       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

SetSum(S, Op(_)) == FoldSet(LAMBDA x, acc : Op(x) + acc, 0, S)
SeqSum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SeqProd(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
SeqMax(s) == FoldLeft(LAMBDA a, b : IF a >= b THEN a ELSE b, s[1], s)
SeqMap(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Pow2(n) == 2 ^ n

TabSize(sz, sc) == SeqProd([i \in 1..Len(sc) |-> sz[sc[i]]])

(* Integer images of a factor (up to a constant scale for exponentials).   *)
Images(f) ==
  IF f.k = "plain" THEN f.raw
  ELSE LET mx == SeqMax(f.raw) IN
       TLCEval([i \in 1..Len(f.raw) |->
          IF f.w >= 0 THEN Pow2(f.w * f.raw[i]) ELSE Pow2((0 - f.w) * (mx - f.raw[i]))])

(* number of bits needed by the largest image: used to keep every number   *)
(* below 2^30 (TLC integers are 32 bit)                                     *)
Bits(n) == CHOOSE b \in 0..31 : (b = 31 \/ n < Pow2(b)) /\ (b = 0 \/ n >= Pow2(b-1))
ImgBits(f) == IF f.k = "plain" THEN (IF SeqMax(f.raw) = 0 THEN 0 ELSE Bits(SeqMax(f.raw) - 1))
              ELSE (IF f.w < 0 THEN 0 - f.w ELSE f.w) * SeqMax(f.raw)

ScopeSet(f) == {f.sc[i] : i \in 1..Len(f.sc)}

(***************************************************************************)
(* Graph structure.  F is a set (or image) of factor records; H the set of *)
(* hidden variables.                                                       *)
(***************************************************************************)
EdgesOf(F, H) == {ScopeSet(f) : f \in {g \in F : Len(g.sc) = 2 /\ ScopeSet(g) \subseteq H}}

RECURSIVE Grow(_, _)
Grow(S, E) ==
  LET T == S \cup UNION {e \in E : e \cap S # {}} IN
  IF T = S THEN S ELSE Grow(T, E)

Component(v, F, H) == Grow({v}, EdgesOf(F, H))
Components(F, H) == LET E == EdgesOf(F, H) IN {Grow({v}, E) : v \in H}
IsTree(C, F, H) == Cardinality({e \in EdgesOf(F, H) : e \subseteq C}) = Cardinality(C) - 1
ConnectedSet(S, F) == \A v \in S : Grow({v}, {e \in EdgesOf(F, S) : e \subseteq S}) = S

(***************************************************************************)
(* Brute force on one component C of hidden variables: the weight of each  *)
(* assignment of C given the evidences, as a flat sequence over the sorted *)
(* variables of C (last fastest).  fsq: sequence of factors touching C.    *)
(***************************************************************************)
Strides(sz, cs) ==
  \* stride of the k-th variable of the sequence cs
  TLCEval([k \in 1..Len(cs) |-> SeqProd([j \in 1..(Len(cs)-k) |-> sz[cs[k+j]]])])

PosIn(cs, v) == CHOOSE k \in 1..Len(cs) : cs[k] = v
ValueAt(sz, ev, cs, str, i, v) ==
  IF ev[v] >= 0 THEN ev[v]
  ELSE LET k == PosIn(cs, v) IN (i \div str[k]) % sz[v]

Touching(F, C) == {f \in F : ScopeSet(f) \cap C # {}}

(* F here is a sequence of factor records *)
Weights(sz, ev, C, F) ==
  LET cs  == TLCEval(SortedSeq(C))
      str == Strides(sz, cs)
      n   == SeqProd([k \in 1..Len(cs) |-> sz[cs[k]]])
      act == TLCEval(SelectSeq(F, LAMBDA f : ScopeSet(f) \cap C # {}))
      \* for each factor: image table, and for each scope position: <<divisor, size>> or a constant
      tabs == TLCEval([j \in 1..Len(act) |-> Images(act[j])])
      dig == TLCEval([j \in 1..Len(act) |->
               [p \in 1..Len(act[j].sc) |->
                  LET v == act[j].sc[p] IN
                  IF ev[v] >= 0 THEN <<-1, ev[v]>> ELSE <<str[PosIn(cs, v)], sz[v]>>]])
      D(d, i) == IF d[1] = -1 THEN d[2] ELSE (i \div d[1]) % d[2]
      Img(j, i) == IF Len(act[j].sc) = 1 THEN tabs[j][1 + D(dig[j][1], i)]
                   ELSE tabs[j][1 + D(dig[j][1], i) * sz[act[j].sc[2]] + D(dig[j][2], i)]
      RECURSIVE W(_, _, _)
      W(i, j, acc) == IF acc = 0 \/ j > Len(act) THEN acc ELSE W(i, j + 1, acc * Img(j, i))
  IN  TLCEval([i \in 1..n |-> W(i - 1, 1, 1)])

Marginal(sz, C, w, v) ==
  LET cs == SortedSeq(C)  str == Strides(sz, cs)  st == str[PosIn(cs, v)] IN
  FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![1 + (((i - 1) \div st) % sz[v])] = @ + w[i]],
                 [x \in 1..sz[v] |-> 0], w)

MaxMarginal(sz, C, w, v) ==
  LET cs == SortedSeq(C)  str == Strides(sz, cs)  st == str[PosIn(cs, v)] IN
  FoldLeftDomain(LAMBDA acc, i :
       LET x == 1 + (((i - 1) \div st) % sz[v]) IN
       IF w[i] > acc[x] THEN [acc EXCEPT ![x] = w[i]] ELSE acc,
     [x \in 1..sz[v] |-> 0], w)

(* joint table of the sequence of variables vs (all in C), last fastest *)
JointTable(sz, C, w, vs) ==
  LET cs == SortedSeq(C)
      str == Strides(sz, cs)
      out == Strides(sz, vs)
      sts == TLCEval([k \in 1..Len(vs) |-> str[PosIn(cs, vs[k])]])
      Idx(i) == 1 + SeqSum([k \in 1..Len(vs) |-> (((i - 1) \div sts[k]) % sz[vs[k]]) * out[k]])
  IN FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![Idx(i)] = @ + w[i]],
                    [x \in 1..TabSize(sz, vs) |-> 0], w)

(* the assignments of maximal weight, as indices into w *)
ArgMax(w) == LET m == SeqMax(w) IN {i \in 1..Len(w) : w[i] = m}
(***************************************************************************)
(* The same answers by elimination along a tree (used when the component   *)
(* has no cycle: much cheaper than the enumeration above, which remains    *)
(* the definition; spec/EFGLemma.tla checks that the two agree).           *)
(***************************************************************************)
(* everything about component C that the elimination needs *)
TreeOf(sz, ev, C, F) ==
  LET act == TLCEval(SelectSeq(F, LAMBDA f : ScopeSet(f) \cap C # {}))
      tabs == TLCEval([j \in 1..Len(act) |-> Images(act[j])])
      IsEdge(j) == Len(act[j].sc) = 2 /\ act[j].sc[1] \in C /\ act[j].sc[2] \in C
      loc(u) == LET own == {j \in 1..Len(act) : u \in ScopeSet(act[j]) /\ ~IsEdge(j)}
                    At(j, x) == IF Len(act[j].sc) = 1 THEN tabs[j][1 + x]
                                ELSE IF act[j].sc[1] = u THEN tabs[j][1 + x * sz[act[j].sc[2]] + ev[act[j].sc[2]]]
                                ELSE tabs[j][1 + ev[act[j].sc[1]] * sz[u] + x]
                IN [x \in 0..(sz[u] - 1) |-> FoldSet(LAMBDA j, acc : acc * At(j, x), 1, own)]
      eds == {j \in 1..Len(act) : IsEdge(j)}
  IN [C |-> C, act |-> act, tabs |-> tabs, loc |-> TLCEval([u \in C |-> loc(u)]), eds |-> eds,
      nb |-> TLCEval([u \in C |-> UNION {ScopeSet(act[j]) \ {u} : j \in {i \in eds : u \in ScopeSet(act[i])}}])]

EdgeImg(sz, T, a, xa, b, xb) ==
  LET j == CHOOSE i \in T.eds : ScopeSet(T.act[i]) = {a, b} IN
  IF T.act[j].sc[1] = a THEN T.tabs[j][1 + xa * sz[b] + xb] ELSE T.tabs[j][1 + xb * sz[a] + xa]

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Msg(_, _, _, _, _)
Msg(sz, T, u, p, mx) ==
  LET ms == TLCEval([w \in (T.nb[u] \ {p}) |-> Msg(sz, T, w, u, mx)])
      own == TLCEval([x \in 0..(sz[u] - 1) |-> FoldSet(LAMBDA w, acc : acc * ms[w][x], T.loc[u][x], DOMAIN ms)])
      Term(xu, xp) == IF own[xu] = 0 THEN 0 ELSE own[xu] * EdgeImg(sz, T, u, xu, p, xp)
  IN TLCEval([xp \in 0..(sz[p] - 1) |->
        IF mx THEN FoldSet(LAMBDA xu, acc : LET t == Term(xu, xp) IN IF t > acc THEN t ELSE acc, 0, 0..(sz[u] - 1))
        ELSE FoldSet(LAMBDA xu, acc : acc + Term(xu, xp), 0, 0..(sz[u] - 1))])

Belief(sz, T, v, mx) ==
  LET ms == TLCEval([w \in T.nb[v] |-> Msg(sz, T, w, v, mx)]) IN
  TLCEval([i \in 1..sz[v] |-> FoldSet(LAMBDA w, acc : acc * ms[w][i - 1], T.loc[v][i - 1], T.nb[v])])

(* joint table of the sequence vs of variables forming a subtree *)
SubtreeTable(sz, T, vs) ==
  LET S == ToSet(vs)
      out == Strides(sz, vs)
      bdr == TLCEval([u \in S |-> LET ms == TLCEval([w \in (T.nb[u] \ S) |-> Msg(sz, T, w, u, FALSE)]) IN
               [x \in 0..(sz[u] - 1) |-> FoldSet(LAMBDA w, acc : acc * ms[w][x], T.loc[u][x], DOMAIN ms)]])
      ine == {j \in T.eds : ScopeSet(T.act[j]) \subseteq S}
      X(i, k) == ((i - 1) \div out[k]) % sz[vs[k]]
      Ed(j, i) == LET a == T.act[j].sc[1]  b == T.act[j].sc[2] IN
                  EdgeImg(sz, T, a, X(i, PosIn(vs, a)), b, X(i, PosIn(vs, b)))
  IN TLCEval([i \in 1..TabSize(sz, vs) |->
        LET u == FoldSet(LAMBDA k, acc : acc * bdr[vs[k]][X(i, k)], 1, 1..Len(vs)) IN
        IF u = 0 THEN 0 ELSE FoldSet(LAMBDA j, acc : acc * Ed(j, i), u, ine)])

(* the answers for component C, by the cheapest applicable way *)
AnsMarg(sz, ev, C, F, tree, v) ==
  IF tree THEN Belief(sz, TreeOf(sz, ev, C, F), v, FALSE) ELSE Marginal(sz, C, Weights(sz, ev, C, F), v)
AnsMax(sz, ev, C, F, tree, v) ==
  IF tree THEN Belief(sz, TreeOf(sz, ev, C, F), v, TRUE) ELSE MaxMarginal(sz, C, Weights(sz, ev, C, F), v)
PartitionZ(sz, ev, C, F, tree) == SeqSum(AnsMarg(sz, ev, C, F, tree, CHOOSE v \in C : TRUE))
=============================================================================
