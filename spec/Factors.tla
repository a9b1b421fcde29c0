------------------------------ MODULE Factors ------------------------------
(***************************************************************************)
(* Factor objects and their algebra (C02, C03).                            *)
(*                                                                         *)
(* Images are exact, in units of 1/64: a table tab[i] stands for the image *)
(* tab[i]/64 * 2^e, with e the scale of the factor.  An exponential factor keeps its raw table (integers, not    *)
(* scaled) and an integer weight w that stands for w*ln(2), so that its    *)
(* images are 2^(w*raw).  Factors are objects: every action creates or     *)
(* changes exactly one of them, and all the others stay as they were.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt, FiniteSetsExt
CONSTANTS NV, Sizes, MaxScope, Depth, Ops, Scales

V == 1..NV
Pick(S) == RandomElement(S)
On(o) == o \in Ops
U == 64

VARIABLES sz, fs, log, done
vars == <<sz, fs, log, done>>
Init == sz = <<>> /\ fs = <<>> /\ log = <<>> /\ done = FALSE
More == ~done /\ sz # <<>> /\ Len(log) < Depth
Emit(r) == log' = Append(log, r)
MaxF == 7

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Siz(sc) == [i \in 1..Len(sc) |-> sz[sc[i]]]
N(sc) == Prod(Siz(sc))
Stride(sc, k) == Prod([j \in 1..(Len(sc) - k) |-> sz[sc[k + j]]])
Comb(sc, i) == [k \in 1..Len(sc) |-> ((i - 1) \div Stride(sc, k)) % sz[sc[k]]]
Idx(sc, c) == 1 + FoldLeft(LAMBDA a, k : a + c[k] * Stride(sc, k), 0, [k \in 1..Len(sc) |-> k])
Pos(sc, v) == CHOOSE k \in 1..Len(sc) : sc[k] = v
(* index in scope sub of the i-th combination of scope sc (sub within sc) *)
SubIdx(sc, i, sub) == Idx(sub, [k \in 1..Len(sub) |-> Comb(sc, i)[Pos(sc, sub[k])]])

(* images in units 1/U *)
Img(f) == IF f.k = "plain" THEN f.tab
          ELSE TLCEval([i \in 1..Len(f.tab) |->
                 IF f.w * f.tab[i] >= 0 THEN U * 2 ^ (f.w * f.tab[i]) ELSE U \div (2 ^ (0 - f.w * f.tab[i]))])
Scopes == UNION {{s \in [1..n -> V] : \A i, j \in 1..n : i # j => s[i] # s[j]} : n \in 1..MaxScope}
Perms(sc) == {s \in [1..Len(sc) -> ToSet(sc)] : \A i, j \in 1..Len(sc) : i # j => s[i] # s[j]}

Rec(f) == [sc |-> f.sc, k |-> f.k, w |-> f.w, tab |-> f.tab, e |-> f.e]
Scaled(sc, tab, e) == [sc |-> sc, k |-> "plain", w |-> 0, tab |-> tab, e |-> e]
Plain(sc, tab) == Scaled(sc, tab, 0)
Zero(sc, e) == Scaled(sc, [i \in 1..N(sc) |-> 0], e)

Setup ==
  /\ sz = <<>> /\ ~done
  /\ \E z \in RandomSubset(1, [V -> 1..Len(Sizes)]) : sz' = [v \in V |-> Sizes[z[v]]]
  /\ UNCHANGED <<fs, log, done>>

Add(f, r) == /\ fs' = Append(fs, f) /\ Emit(r @@ [f |-> Len(fs) + 1, now |-> Rec(f)]) /\ UNCHANGED <<sz, done>>
Change(i, f, r) == /\ fs' = [fs EXCEPT ![i] = f] /\ Emit(r @@ [f |-> i, now |-> Rec(f)]) /\ UNCHANGED <<sz, done>>
Same(r) == Emit(r) /\ UNCHANGED <<sz, fs, done>>
Plains == {i \in 1..Len(fs) : fs[i].k = "plain"}
Exps == {i \in 1..Len(fs) : fs[i].k = "exp"}
Room == Len(fs) < MaxF

(*************************** creation and updates **************************)
New == /\ More /\ Room /\ On("new")
       /\ \E sc \in {Pick(Scopes)} : \E e \in {Pick(Scales)} : Add(Zero(sc, e), [o |-> "new"])

SetOne == /\ More /\ On("set") /\ Plains # {}
          /\ \E i \in {Pick(Plains)} : \E c \in {Pick(1..N(fs[i].sc))} : \E x \in {Pick(0..5)} :
               Change(i, [fs[i] EXCEPT !.tab[c] = x * U], [o |-> "set", cs |-> <<Comb(fs[i].sc, c)>>, xs |-> <<x * U>>])

(* many assignments in a random order, with repetitions *)
SetMany ==
  /\ More /\ On("set") /\ Plains # {}
  /\ \E i \in {Pick(Plains)} :
     \E n \in {Pick({2, 5, 6, 7, N(fs[i].sc) \div 2, N(fs[i].sc), 2 * N(fs[i].sc)})} :
     \E cs \in RandomSubset(1, [1..n -> 1..N(fs[i].sc)]) :
     \E xs \in RandomSubset(1, [1..n -> 0..5]) :
       LET tab == FoldLeft(LAMBDA t, k : [t EXCEPT ![cs[k]] = xs[k] * U], fs[i].tab, [k \in 1..n |-> k]) IN
       /\ n <= 40
       /\ Change(i, [fs[i] EXCEPT !.tab = TLCEval(tab)],
              [o |-> "set", cs |-> [k \in 1..n |-> Comb(fs[i].sc, cs[k])], xs |-> [k \in 1..n |-> xs[k] * U]])

SetRejected ==
  /\ More /\ On("set") /\ Plains # {}
  /\ \E i \in {Pick(Plains)} : \E c \in {Pick(1..N(fs[i].sc))} : \E bad \in {Pick({"neg", "short", "long", "range"})} :
     \E k \in {Pick(1..Len(fs[i].sc))} :
       LET b == Comb(fs[i].sc, c)
           cc == IF bad = "short" THEN Tail(b) ELSE IF bad = "long" THEN Append(b, 0)
                 ELSE IF bad = "range" THEN [b EXCEPT ![k] = sz[fs[i].sc[k]] + Pick(0..1)] ELSE b
       IN Same([o |-> "setErr", f |-> i, c |-> TLCEval(cc), x |-> IF bad = "neg" THEN -1 ELSE 1, bad |-> bad])

Clear == /\ More /\ On("clear") /\ Plains # {}
         /\ \E i \in {Pick(Plains)} : Change(i, Zero(fs[i].sc, fs[i].e), [o |-> "clear"])

CopyF == /\ More /\ Room /\ On("copy") /\ fs # <<>>
         /\ \E i \in {Pick(1..Len(fs))} : Add(fs[i], [o |-> "copy", from |-> i])

Replaceable(sc, s) == Len(s) = Len(sc) /\ \A k \in 1..Len(sc) : sz[s[k]] = sz[sc[k]]
Replace ==
  /\ More /\ On("replace") /\ fs # <<>>
  /\ \E i \in {Pick(1..Len(fs))} :
     \E s \in {LET good == {x \in Scopes : Replaceable(fs[i].sc, x)} IN
               IF Pick(1..3) = 1 THEN Pick(Scopes) ELSE Pick(good)} :
       IF Replaceable(fs[i].sc, s) THEN Change(i, [fs[i] EXCEPT !.sc = s], [o |-> "replace", sc |-> s])
       ELSE Same([o |-> "replaceErr", f |-> i, sc |-> s])

(********************************* algebra *********************************)
\* with a parameter: TLC evaluates only once the definitions without any
Weights(d) == {-2, -1, 0, 1, 2, Pick({-30, -9, 9, 30})}
(* its images can be written in units *)
Narrow(f) == f.k = "plain" \/ f.w \in -2..2
Narrows == {i \in 1..Len(fs) : Narrow(fs[i])}
IntRaw(f) == f.k = "plain" /\ f.e = 0 /\ \A i \in 1..Len(f.tab) : f.tab[i] % U = 0 /\ f.tab[i] <= 3 * U
Expo ==
  /\ More /\ Room /\ On("expo") /\ {i \in Plains : IntRaw(fs[i])} # {}
  /\ \E i \in {Pick({j \in Plains : IntRaw(fs[j])})} : \E w \in {Pick(Weights(0))} :
       Add([sc |-> fs[i].sc, k |-> "exp", w |-> w, e |-> 0, tab |-> TLCEval([j \in 1..Len(fs[i].tab) |-> fs[i].tab[j] \div U])],
           [o |-> "expo", from |-> i, w |-> w])

SetW ==
  /\ More /\ On("expo") /\ Exps # {}
  /\ \E i \in {Pick(Exps)} : \E w \in {Pick(Weights(0))} : Change(i, [fs[i] EXCEPT !.w = w], [o |-> "setW", w |-> w])

CloneImg ==
  /\ More /\ Room /\ On("clone") /\ Narrows # {}
  /\ \E i \in {Pick(Narrows)} : Add(Scaled(fs[i].sc, Img(fs[i]), fs[i].e), [o |-> "clone", from |-> i])

(* the order of the variables of a product is not specified: canonical here, any in the code *)
Merge ==
  /\ More /\ Room /\ On("merge") /\ Narrows # {}
  /\ \E n \in {Pick(1..3)} : \E is \in RandomSubset(1, [1..n -> Narrows]) :
       LET un == UNION {ToSet(fs[is[k]].sc) : k \in 1..n}
           sc == SetToSortSeq(un, LAMBDA a, b : a < b)
           im == TLCEval([k \in 1..n |-> Img(fs[is[k]])])
           \* successive products, in units; 0 marks not representable
           At(i) == FoldLeft(LAMBDA a, k : IF a < 0 THEN a ELSE
                        LET y == im[k][SubIdx(sc, i, fs[is[k]].sc)] IN
                        IF a > 60000 \/ y > 30000 \/ (a * y) % U # 0 THEN -1 ELSE (a * y) \div U, U, [k \in 1..n |-> k])
           e == FoldLeft(LAMBDA a, k : a + fs[is[k]].e, 0, [k \in 1..n |-> k])
           lo == FoldLeft(LAMBDA a, k : a + (IF fs[is[k]].e < 0 THEN fs[is[k]].e ELSE 0), 0, [k \in 1..n |-> k])
           hi == e - lo
           \* no partial product, in any order, out of the range of floating point
           ok == Cardinality(un) <= MaxScope /\ N(sc) <= 64 /\ lo > -110 /\ hi < 100
           tab == IF ok THEN TLCEval([i \in 1..N(sc) |-> At(i)]) ELSE <<-1>>
       IN /\ \A i \in 1..Len(tab) : tab[i] >= 0
          /\ Add(Scaled(sc, tab, e), [o |-> "merge", from |-> is])

Permute ==
  /\ More /\ Room /\ On("permute") /\ Plains # {}
  /\ \E i \in {Pick(Plains)} :
     \E s \in {IF Pick(1..4) = 1 THEN Pick(Scopes) ELSE Pick(Perms(fs[i].sc))} :
       IF ToSet(s) = ToSet(fs[i].sc)
       THEN Add(Scaled(s, TLCEval([j \in 1..N(s) |-> fs[i].tab[SubIdx(s, j, fs[i].sc)]]), fs[i].e), [o |-> "permute", from |-> i])
       ELSE Same([o |-> "permuteErr", from |-> i, sc |-> s])

Corr ==
  /\ More /\ Room /\ On("corr")
  /\ \E anti \in {Pick(BOOLEAN)} :
     \E sc \in {LET good == {x \in Scopes : Len(x) > 1 /\ \A k \in 1..Len(x) : sz[x[k]] = sz[x[1]]} IN
                IF good = {} \/ Pick(1..3) = 1 THEN Pick(Scopes) ELSE Pick(good)} :
       LET ok == Len(sc) > 1 /\ \A k \in 1..Len(sc) : sz[sc[k]] = sz[sc[1]]
           Eq(i) == \A k \in 1..Len(sc) : Comb(sc, i)[k] = Comb(sc, i)[1]
       IN IF ok THEN Add(Plain(sc, TLCEval([i \in 1..N(sc) |-> IF Eq(i) = anti THEN 0 ELSE U])),
                         [o |-> "corr", anti |-> anti, sc |-> sc])
          ELSE Same([o |-> "corrErr", anti |-> anti, sc |-> sc])

(* look-up through a larger group *)
Finder ==
  /\ More /\ On("finder") /\ fs # <<>>
  /\ \E i \in {Pick(1..Len(fs))} :
     \E big \in {LET sup == {x \in Scopes : ToSet(fs[i].sc) \subseteq ToSet(x)} IN
                 IF sup = {} \/ Pick(1..4) = 1 THEN Pick(Scopes) ELSE Pick(sup)} :
       LET ok == ToSet(fs[i].sc) \subseteq ToSet(big) IN
       Same([o |-> "finder", f |-> i, big |-> big, ok |-> ok,
             idx |-> IF ok THEN TLCEval([j \in 1..N(big) |-> SubIdx(big, j, fs[i].sc)]) ELSE <<>>])

Finish ==
  /\ ~done /\ Len(log) >= Depth
  /\ PrintT("@@" \o ToJson([spec |-> "factors", sz |-> sz, ops |-> log]))
  /\ done' = TRUE
  /\ UNCHANGED <<sz, fs, log>>

SetMany2 == SetMany
SetMany3 == SetMany
New2 == New
Next == Setup \/ New \/ New2 \/ SetOne \/ SetMany \/ SetMany2 \/ SetMany3 \/ SetRejected \/ Clear \/ CopyF \/ Replace
        \/ Expo \/ SetW \/ CloneImg \/ Merge \/ Permute \/ Corr \/ Finder \/ Finish
        \* drawn more often
        \/ (On("boost") /\ Merge) \/ (On("boost") /\ Merge) \/ (On("boost") /\ Permute) \/ (On("boost") /\ CloneImg)
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in 1..Len(fs) : /\ Len(fs[i].tab) = N(fs[i].sc)
                                /\ \A j \in 1..Len(fs[i].tab) : fs[i].tab[j] >= 0
=============================================================================
