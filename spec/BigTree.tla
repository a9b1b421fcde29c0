------------------------------ MODULE BigTree ------------------------------
(***************************************************************************)
(* Inference on large acyclic models (C24).                                *)
(*                                                                         *)
(* The nodes are 1..n, every node but the first is connected to a smaller  *)
(* one.  The answers are computed by an upward and a downward sweep:       *)
(*  - "sum": floating point arithmetic with 20 significant bits and        *)
(*    unbounded exponent, defined below;                                   *)
(*  - "max": the images are powers of 2 and the sweeps are exact in the    *)
(*    logarithmic domain (integers); -BIG or less stands for a null value. *)
(* Every factor has a magnitude: all its images are multiplied by          *)
(* 2^magnitude in the real model, which must not change any answer.        *)
(* "zero": arbitrary zeros, possibly impossible evidences; only finite     *)
(* and normalised answers are required.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, TLCExt, Json, SequencesExt, Randomization
CONSTANTS Spread, MaxN, Modes, Shapes, Mags, ZeroPct

VARIABLES t, done
vars == <<t, done>>
Pick(S) == RandomElement(S)

(***************************************************************************)
(* Floating point numbers <<m, e>> = m * 2^e with 2^19 <= m < 2^20 or m=0: *)
(* all the quantities are non negative and are only added and multiplied,  *)
(* so every operation has a relative error below 2^-18.                    *)
(***************************************************************************)
P20 == 1048576
P19 == 524288
RECURSIVE Up(_, _), Down(_, _)
Up(m, e) == IF m >= P19 THEN <<m, e>> ELSE Up(2 * m, e - 1)
Down(m, e) == IF m < P20 THEN <<m, e>> ELSE Down(m \div 2, e + 1)
Fp(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m >= P20 THEN Down(m, e) ELSE Up(m, e)
(* (a * b) / 2^20 without overflow *)
MulShift(a, b) == (a * (b \div 1024) + (a * (b % 1024)) \div 1024) \div 1024
FMul(x, y) == Fp(MulShift(x[1], y[1]), x[2] + y[2] + 20)
RECURSIVE Half(_, _)
Half(m, k) == IF k = 0 \/ m = 0 THEN m ELSE Half(m \div 2, k - 1)
FAdd(x, y) ==
  IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
  ELSE IF x[2] >= y[2] THEN Fp(x[1] + Half(y[1], x[2] - y[2]), x[2])
  ELSE Fp(y[1] + Half(x[1], y[2] - x[2]), y[2])
FOne == <<P19, -19>>

MaxOf(q) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, q[1], q)
Mul(p, q) == TLCEval([i \in 1..Len(p) |-> FMul(p[i], q[i])])
One(n) == [i \in 1..n |-> FOne]
(* ratios to the largest value, times 2^20 *)
Scaled(q) == LET E == MaxOf([i \in 1..Len(q) |-> IF q[i][1] = 0 THEN -1000000 ELSE q[i][2]]) IN
             [i \in 1..Len(q) |-> IF q[i][1] = 0 THEN 0 ELSE Half(q[i][1], E - q[i][2])]
FTab(q) == TLCEval([i \in 1..Len(q) |-> Fp(q[i], 0)])

Add(p, q) == TLCEval([i \in 1..Len(p) |-> p[i] + q[i]])
Zero(n) == [i \in 1..n |-> 0]
BIG == 1000000

(* sum or max over the values of the other end of an edge; tab is laid out parent first *)
ToParent(mode, tab, np, nc, q) ==
  IF mode = "max" THEN TLCEval([x \in 1..np |-> MaxOf([y \in 1..nc |-> tab[(x - 1) * nc + y] + q[y]])])
  ELSE TLCEval([x \in 1..np |-> FoldLeftDomain(LAMBDA a, y : FAdd(a, FMul(tab[(x - 1) * nc + y], q[y])), <<0, 0>>, q)])
ToChild(mode, tab, np, nc, q) ==
  IF mode = "max" THEN TLCEval([y \in 1..nc |-> MaxOf([x \in 1..np |-> tab[(x - 1) * nc + y] + q[x]])])
  ELSE TLCEval([y \in 1..nc |-> FoldLeftDomain(LAMBDA a, x : FAdd(a, FMul(tab[(x - 1) * nc + y], q[x])), <<0, 0>>, q)])

(* beliefs of all the nodes of tree T given the evidences ev (-1: hidden) *)
Beliefs(T, ev) ==
  LET lib == TLCEval([i \in 1..Len(T.lib) |-> IF T.mode = "max" THEN T.lib[i] ELSE FTab(T.lib[i])])
      n == T.n  z == T.sz  par == T.par  mode == T.mode
      C(p, q) == IF mode = "max" THEN Add(p, q) ELSE Mul(p, q)
      U(k) == IF mode = "max" THEN Zero(k) ELSE One(k)
      ind(v) == [x \in 1..z[v] |-> IF ev[v] < 0 \/ ev[v] = x - 1 THEN (IF mode = "max" THEN 0 ELSE FOne)
                                   ELSE (IF mode = "max" THEN -BIG ELSE <<0, 0>>)]
      \* evidence and unary factors of every node
      own == TLCEval(FoldLeft(LAMBDA acc, u :
                TLCEval([acc EXCEPT ![u.v] = C(@, lib[u.tab])]),
                TLCEval([v \in 1..n |-> ind(v)]), T.una))
      Tab(c) == lib[T.etab[c]]
      \* upward: acc = product of the messages of the children seen so far, suf = that of the later siblings
      up == TLCEval(FoldLeft(LAMBDA st, c :
               LET p == par[c]
                   mu == TLCEval(ToParent(mode, Tab(c), z[p], z[c], C(own[c], st.acc[c])))
               IN TLCEval([acc |-> [st.acc EXCEPT ![p] = C(@, mu)], suf |-> [st.suf EXCEPT ![c] = st.acc[p]],
                           mu |-> [st.mu EXCEPT ![c] = mu]]),
               TLCEval([acc |-> [v \in 1..n |-> U(z[v])], suf |-> [v \in 1..n |-> <<>>], mu |-> [v \in 1..n |-> <<>>]]),
               [i \in 1..(n - 1) |-> n + 1 - i]))
      \* downward: pre = product of the messages of the earlier siblings
      down == TLCEval(FoldLeft(LAMBDA st, c :
               LET p == par[c]
                   cav == TLCEval(C(C(own[p], st.d[p]), C(up.suf[c], st.pre[p])))
               IN TLCEval([d |-> [st.d EXCEPT ![c] = ToChild(mode, Tab(c), z[p], z[c], cav)],
                           pre |-> [st.pre EXCEPT ![p] = C(@, up.mu[c])]]),
               TLCEval([d |-> [v \in 1..n |-> U(z[v])], pre |-> [v \in 1..n |-> U(z[v])]]),
               [i \in 1..(n - 1) |-> i + 1]))
  IN [v \in 1..n |-> LET b == TLCEval(C(own[v], C(up.acc[v], down.d[v]))) IN
                       IF mode = "max" THEN b ELSE TLCEval(Scaled(b))]

(***************************************************************************)
(* Random trees                                                            *)
(***************************************************************************)
Parent(shape, i) ==
  CASE shape = "chain" -> i - 1
    [] shape = "star" -> 1
    [] shape = "stars" -> IF i % 40 = 0 THEN i - 1 ELSE IF i < 40 THEN 1 ELSE (i \div 40) * 40
    [] shape = "binary" -> i \div 2
    [] shape = "random" -> Pick(1..(i - 1))
    [] shape = "legs" -> IF i <= 5 THEN 1 ELSE i - 4
    [] shape = "unaries" -> 1

RandTab(mode, k) == [i \in 1..k |-> CASE mode = "max" -> IF Pick(1..100) <= ZeroPct THEN -BIG ELSE Pick(0..Spread)
                                       [] mode = "sum" -> IF Spread = 6 THEN Pick(1..9) ELSE 2 ^ Pick(0..Spread)
                                       [] mode = "zero" -> Pick({0, 0, 1, 3})]
Init == t = <<>> /\ done = FALSE
Draw ==
  /\ t = <<>>
  /\ \E mode \in {Pick(Modes)} : \E shape \in {Pick(Shapes)} :
     \E n \in {IF shape = "unaries" THEN Pick(2..4) ELSE Pick((IF MaxN < 6 THEN 2 ELSE MaxN \div 3)..MaxN)} :
     \E s2 \in {Pick({<<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>})} :
     \* sizes alternate with the parity of the depth-free index, tables are per (size, size)
     \E z \in {[v \in 1..n |-> s2[1 + (v % 2)]]} :
     \E par \in {[v \in 1..n |-> IF v = 1 THEN 0 ELSE TLCEval(Parent(shape, v))]} :
     \E K \in {4} :
     \* library: K edge tables for each pair of sizes, then K unary tables for each size
     \E lib \in {[i \in 1..(6 * K) |->
                    LET g == (i - 1) \div K IN
                    RandTab(mode, CASE g = 0 -> s2[1] * s2[1] [] g = 1 -> s2[1] * s2[2] [] g = 2 -> s2[2] * s2[1]
                                    [] g = 3 -> s2[2] * s2[2] [] g = 4 -> s2[1] [] g = 5 -> s2[2])]} :
     \E etab \in {[c \in 1..n |-> IF c = 1 THEN 0
                     ELSE K * (2 * (par[c] % 2) + (c % 2)) + Pick(1..K)]} :
     \E swap \in {[c \in 1..n |-> Pick(BOOLEAN)]} :
     \E emag \in {[c \in 1..n |-> Pick(Mags)]} :
     \E nu \in {IF shape = "unaries" THEN Pick((MaxN \div 2)..MaxN) ELSE Pick(0..(n \div 2))} :
     \E una \in {[i \in 1..nu |-> LET v == TLCEval(Pick(1..n)) IN
                     [v |-> v, tab |-> K * (4 + (v % 2)) + Pick(1..K), mag |-> Pick(Mags)]]} :
     \E pct \in {Pick({0, 2, 10, 30})} :
     \E evs \in {[k \in 1..2 |-> [v \in 1..n |-> IF Pick(1..100) <= pct THEN Pick(0..(z[v] - 1)) ELSE -1]]} :
       t' = <<[n |-> n, mode |-> mode, shape |-> shape, sz |-> z, par |-> par, lib |-> lib, etab |-> etab,
               swap |-> swap, emag |-> emag, una |-> una, evs |-> evs, thr |-> Pick({1, 1, 2, 4})]>>
  /\ UNCHANGED done

Finish ==
  /\ t # <<>> /\ ~done
  /\ LET T == t[1] IN
     PrintT("@@" \o ToJson(T @@ [ans |-> IF T.mode = "zero" THEN <<>> ELSE [k \in 1..2 |-> Beliefs(T, T.evs[k])]]))
  /\ done' = TRUE /\ UNCHANGED t
Spec == Init /\ [][Draw \/ Finish]_vars

(***************************************************************************)
(* On small trees the sweeps agree with the enumeration of all the         *)
(* assignments.                                                            *)
(***************************************************************************)
Assignments(T) == {a \in [1..T.n -> 0..2] : \A v \in 1..T.n : a[v] < T.sz[v]}
Value(T, ev, a) ==
  LET F == [c \in 1..(T.n - 1) |-> T.lib[T.etab[c + 1]][a[T.par[c + 1]] * T.sz[c + 1] + a[c + 1] + 1]]
           \o [i \in 1..Len(T.una) |-> T.lib[T.una[i].tab][a[T.una[i].v] + 1]]
  IN FoldLeft(LAMBDA x, y : IF T.mode = "max" THEN x + y ELSE x * y, IF T.mode = "max" THEN 0 ELSE 1, F)
Agrees ==
  (t # <<>> /\ t[1].n <= 4 /\ Len(t[1].una) <= 2 /\ t[1].mode # "zero") =>
    \A k \in 1..2 :
      LET T == t[1]  ev == T.evs[k]
          A == TLCEval({a \in Assignments(T) : \A v \in 1..T.n : ev[v] >= 0 => a[v] = ev[v]})
          W == TLCEval([a \in A |-> Value(T, ev, a)])
          B == TLCEval(Beliefs(T, ev))
          Sum(v, x) == FoldSet(LAMBDA a, acc : acc + W[a], 0, {a \in A : a[v] = x})
          Best(v, x) == LET S == {W[a] : a \in {b \in A : b[v] = x}} IN
                        IF S = {} THEN -1 ELSE CHOOSE m \in S : \A n \in S : m >= n
      IN \A v \in 1..T.n :
           IF T.mode = "max" THEN \A x \in 1..T.sz[v] : Best(v, x - 1) >= 0 => B[v][x] = Best(v, x - 1)
           ELSE LET q == Scaled(FTab([x \in 1..T.sz[v] |-> Sum(v, x - 1)]))
                    \* both are ratios to a maximum in [2^19, 2^20): compare after rescaling to the same sum
                    sb == FoldLeft(LAMBDA x, y : x + y, 0, B[v])
                    sq == FoldLeft(LAMBDA x, y : x + y, 0, q)
                    nb(x) == ((B[v][x] \div 512) * 500000) \div (sb \div 512)
                    nq(x) == ((q[x] \div 512) * 500000) \div (sq \div 512)
                IN \A x \in 1..T.sz[v] : nb(x) - nq(x) \in -1500..1500
=============================================================================
