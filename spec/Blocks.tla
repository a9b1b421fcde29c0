------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* The building blocks of the inference (C28): unary factors merged,       *)
(* binary factors reduced to an evidence, indicators, messages.  A state   *)
(* is a pool of unary results (by variable), every one of which can be     *)
(* merged again or sent through a binary factor, as it happens while       *)
(* propagating.  Results are known up to a positive scale, except for      *)
(* evidences and indicators, which are exact.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt
CONSTANTS NV, MaxSize, Depth, Scales
VARIABLES sz,   \* sizes of the variables
          us,   \* unary factors so far: [v |-> variable, im |-> images]
          log, done
vars == <<sz, us, log, done>>
Pick(S) == RandomElement(S)
V == 1..NV
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
Sum(q) == SumTo(q, Len(q))
RECURSIVE MaxTo(_, _)
MaxTo(q, n) == IF n = 0 THEN 0 ELSE Max2(q[n], MaxTo(q, n - 1))
Peak(q) == MaxTo(q, Len(q))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdTo(_, _)
GcdTo(q, n) == IF n = 0 THEN 0 ELSE Gcd(q[n], GcdTo(q, n - 1))
\* the same images up to a scale, as small as possible
Reduced(q) == LET g == GcdTo(q, Len(q)) IN IF g = 0 THEN q ELSE TLCEval([i \in 1..Len(q) |-> q[i] \div g])

Init ==
  /\ sz \in {TLCEval([v \in V |-> Pick(1..MaxSize)])}
  /\ us = <<>> /\ log = <<>> /\ done = FALSE
More == ~done /\ Len(log) < Depth
Emit(r) == log' = Append(log, r)
Small == 200000          \* products of the images of a unary and a binary factor have to be representable

Images(n) ==
  TLCEval(LET kind == Pick(1..4) IN
          [i \in 1..n |-> IF kind = 1 THEN Pick(0..9) ELSE IF kind = 2 THEN Pick(1..9) ELSE IF kind = 3 THEN Pick({0, 1}) ELSE Pick(0..3)])
\* plain images (multiplied by 2^s), or the exponential of weight * raw, with weights multiple of ln 2
Def(n) ==
  TLCEval(LET k == Pick({"plain", "exp"})  raw == IF k = "plain" THEN Images(n) ELSE TLCEval([i \in 1..n |-> Pick(0..3)])
              w == Pick(-1..2)
          IN [k |-> k, raw |-> raw, w |-> w, s |-> IF k = "plain" THEN Pick(Scales) ELSE 0])
\* integer images of a definition, up to a scale when the weight is negative
Img(d) == TLCEval([i \in 1..Len(d.raw) |-> IF d.k = "plain" THEN d.raw[i]
                                           ELSE IF d.w >= 0 THEN Pow2(d.w * d.raw[i]) ELSE Pow2(-d.w * (3 - d.raw[i]))])

Room(b) == Cardinality({i \in 1..Len(us) : us[i].v = b}) < 6
Keep(v, im) == IF Peak(im) <= Small THEN us' = Append(us, [v |-> v, im |-> im]) ELSE us' = us

(* a user's unary factor *)
Given ==
  /\ More
  /\ \E v \in {Pick(V)} : \E d \in {Def(sz[v])} :
       /\ Room(v)
       /\ us' = Append(us, [v |-> v, im |-> Reduced(Img(d))])
       /\ Emit([o |-> "given", v |-> v, def |-> d])
  /\ UNCHANGED <<sz, done>>

(* the product of some of them, in one go or one at a time *)
Merge ==
  /\ More /\ us # <<>>
  /\ \E v \in {Pick({us[i].v : i \in 1..Len(us)})} :
     \E how \in {Pick({"all", "onebyone", "norm"})} :
     \E S \in {LET A == {i \in 1..Len(us) : us[i].v = v} IN TLCEval({i \in A : Pick(1..3) > 1} \cup {Pick(A)})} :
     \E twice \in {Pick(1..4)} :   \* sometimes one of them is there twice
       LET q == IF twice = 1 THEN SetToSeq(S) \o <<SetToSeq(S)[1]>> ELSE SetToSeq(S)
           RECURSIVE Times(_)
           Times(k) == IF k = 0 THEN [i \in 1..sz[v] |-> 1]
                       ELSE LET p == Times(k - 1) IN Reduced(TLCEval([i \in 1..sz[v] |-> p[i] * us[q[k]].im[i]]))
           Fits == \A k \in 1..Len(q) : Peak(Times(k)) <= Small
       IN /\ Len(q) <= 4 /\ \A i \in 1..Len(q) : Peak(us[q[i]].im) <= 9000
          /\ Fits
          /\ Keep(v, Times(Len(q)))
          /\ Emit([o |-> "merge", v |-> v, of |-> q, how |-> how, ans |-> Times(Len(q))])
  /\ UNCHANGED <<sz, done>>

Ones ==
  /\ More
  /\ \E v \in {Pick(V)} :
       /\ Room(v)
       /\ us' = Append(us, [v |-> v, im |-> TLCEval([i \in 1..sz[v] |-> 1])])
       /\ Emit([o |-> "ones", v |-> v])
  /\ UNCHANGED <<sz, done>>

Indicate ==
  /\ More
  /\ \E v \in {Pick(V)} : \E x \in {Pick(0..sz[v] + 1)} :
       LET ok == x < sz[v]  im == [i \in 1..sz[v] |-> IF i = x + 1 THEN 1 ELSE 0] IN
       /\ Room(v)
       /\ us' = IF ok THEN Append(us, [v |-> v, im |-> im]) ELSE us
       /\ Emit([o |-> "ind", v |-> v, x |-> x, ok |-> ok])
  /\ UNCHANGED <<sz, done>>

(* combination (i, j) of a binary factor over <<a, b>>, from 0 *)
At(d, a, b, i, j) == Img(d)[i * sz[b] + j + 1]

(* a binary factor, the second (or the first) variable of which is observed *)
Reduce ==
  /\ More
  /\ \E a \in {Pick(V)} : \E b \in {Pick(V)} :
       /\ a # b
       /\ \E d \in {Def(sz[a] * sz[b])} : \E first \in {Pick(BOOLEAN)} :
          LET ev == IF first THEN a ELSE b  hid == IF first THEN b ELSE a IN
          \E x \in {Pick(0..sz[ev] - 1)} :
            LET im == TLCEval([i \in 1..sz[hid] |-> IF first THEN At(d, a, b, x, i - 1) ELSE At(d, a, b, i - 1, x)]) IN
            /\ Room(hid)
            /\ Keep(hid, Reduced(im))
            /\ Emit([o |-> "evid", g |-> <<a, b>>, def |-> d, ev |-> ev, x |-> x, hid |-> hid, ans |-> im])
  /\ UNCHANGED <<sz, done>>

(* the message of a unary result through a binary factor *)
Message ==
  /\ More /\ us # <<>>
  /\ \E k \in {Pick(1..Len(us))} : \E b \in {Pick(V)} :
       LET a == us[k].v IN
       /\ a # b
       /\ Room(b) /\ Peak(us[k].im) <= Small
       /\ \E first \in {Pick(BOOLEAN)} : \E kind \in {Pick({"SUM", "MAP"})} :
          LET g == IF first THEN <<a, b>> ELSE <<b, a>> IN
          \E d \in {Def(sz[a] * sz[b])} :
            LET Term(i, j) == us[k].im[i] * (IF first THEN At(d, a, b, i - 1, j - 1) ELSE At(d, b, a, j - 1, i - 1))
                Col(j) == TLCEval([i \in 1..sz[a] |-> Term(i, j)])
                im == Reduced(TLCEval([j \in 1..sz[b] |-> IF kind = "SUM" THEN Sum(Col(j)) ELSE Peak(Col(j))]))
            IN /\ Keep(b, im)
               /\ Emit([o |-> "msg", u |-> k, g |-> g, def |-> d, to |-> b, kind |-> kind, ans |-> im,
                        kept |-> Peak(im) <= Small])
  /\ UNCHANGED <<sz, done>>

(* how much the distributions of two of them differ: num / den *)
Diff ==
  /\ More /\ us # <<>>
  /\ \E i \in {Pick(1..Len(us))} :
     \E j \in {Pick({k \in 1..Len(us) : us[k].v = us[i].v})} :
       LET p == us[i].im  q == us[j].im  P == Sum(p)  Q == Sum(q)
       IN /\ P > 0 /\ Q > 0 /\ P <= 4000 /\ Q <= 4000
          /\ Emit([o |-> "diff", i |-> i, j |-> j, num |-> Sum(TLCEval([k \in 1..Len(p) |-> Abs(p[k] * Q - q[k] * P)])), den |-> P * Q])
  /\ UNCHANGED <<sz, us, done>>

(* what can't be merged *)
Wrong ==
  /\ More
  /\ \E v \in {Pick(V)} : \E k \in {Pick({"other", "binary", "twin"})} : Emit([o |-> "wrong", v |-> v, kind |-> k])
  /\ UNCHANGED <<sz, us, done>>

Finish ==
  /\ ~done /\ Len(log) >= Depth
  /\ PrintT("@@" \o ToJson([spec |-> "blocks", sz |-> sz, ops |-> log]))
  /\ done' = TRUE /\ UNCHANGED <<sz, us, log>>
Next == Given \/ Merge \/ Ones \/ Indicate \/ Reduce \/ Message \/ Diff \/ Wrong \/ Finish
Spec == Init /\ [][Next]_vars
NonNegative == \A i \in 1..Len(us) : Len(us[i].im) = sz[us[i].v] /\ \A k \in 1..Len(us[i].im) : us[i].im[k] >= 0
=============================================================================
