------------------------------ MODULE EFGModel ------------------------------
(***************************************************************************)
(* API-level state machine of EasyFactorGraph models.                      *)
(*                                                                         *)
(* One action per public call (the linearisation point of a sequential     *)
(* library is the return of the call), including the calls that must be    *)
(* rejected.  The state is the abstract content: which factor objects      *)
(* exist, which models hold which factors / tunable clusters / evidences.  *)
(* Shallow copies share factor identities, deep copies create new ones.    *)
(* Every query action appends to `log' the exact answer the implementation *)
(* must give; a finished behaviour is printed as JSON and replayed into    *)
(* the real code by driver/model_driver.cpp.                               *)
(***************************************************************************)
EXTENDS EFGMath, Json, Randomization

CONSTANTS NV,        \* number of variables of the universe
          Sizes,     \* sequence of sizes to draw from (repetition = weight)
          MaxFac,    \* max number of factors in one model
          Depth,     \* number of calls of a behaviour
          Ops,       \* enabled kinds of calls
          Threads,   \* thread counts to draw from
          Loops,     \* cyclic models allowed
          ZeroPct,   \* percentage of tables that may contain zeros
          Near,      \* images that differ by less than 1/10000
          Low,       \* images of 1 bit at most (room for more variables)
          Weak,      \* binary factors are nearly uniform (cyclic models)
          Blocks,    \* the variables are split in so many blocks, never connected to each other
          EmitSt,    \* emit the expected structure after every call: "none", "one", "all"
          MaxBits    \* bound on sum of image bits (exactness in 32 bit)

V == 1..NV

VARIABLES sz,   \* sizes of the variables (drawn by Setup)
          fs,   \* all factor objects ever created
          ms,   \* models: [ty, cf, cl, ev, taint]
          log,  \* calls made so far with their expected outcome
          done

vars == <<sz, fs, ms, log, done>>

Pick(S) == RandomElement(S)
On(op) == op \in Ops
More == ~done /\ sz # <<>> /\ Len(log) < Depth

(***************************************************************************)
(* Derived content of a model                                              *)
(***************************************************************************)
NoEv == [v \in V |-> -1]
EmptyModel(ty) == [ty |-> ty, cf |-> <<>>, cl |-> <<>>, ev |-> NoEv, taint |-> FALSE, uni |-> 0]
FidSeq(m) == m.cf \o FlattenSeq(m.cl)
FacSeqOf(m, fstore) == [i \in 1..Len(FidSeq(m)) |-> fstore[FidSeq(m)[i]]]
FacSeq(m) == FacSeqOf(m, fs)
FacSet(m) == ToSet(FacSeq(m))
VarsOf(m) == UNION {ScopeSet(fs[f]) : f \in ToSet(FidSeq(m))}
Observed(m) == {v \in V : m.ev[v] >= 0}
Hidden(m) == VarsOf(m) \ Observed(m)
PairsOf(m) == {ScopeSet(fs[f]) : f \in {g \in ToSet(FidSeq(m)) : Len(fs[g].sc) = 2}}
WeightsOf(m) == [i \in 1..Len(m.cl) |-> fs[m.cl[i][1]].w]

(* connected parts are independent of each other: the numbers of each one must fit *)
BitsOK(m, fstore) ==
  LET q == FacSeqOf(m, fstore)
      E == {ScopeSet(q[i]) : i \in {j \in 1..Len(q) : Len(q[j].sc) = 2}}
      Of(C) == SeqSum([i \in 1..Len(q) |-> IF q[i].sc[1] \in C THEN ImgBits(q[i]) ELSE 0])
               + SeqSum([v \in V |-> IF v \in C THEN Bits(sz[v] - 1) ELSE 0])
  IN \A C \in {Grow({v}, E) : v \in V} : Of(C) <= MaxBits

(* structure the implementation must report for model number i *)
(* (written over the factor store of the successor state, with no priming   *)
(* of operators so that it can be used inside actions)                      *)
StructOf(m, st) ==
  LET q == FidSeq(m) IN
  [vars |-> SortedSeq(UNION {ScopeSet(st[q[i]]) : i \in 1..Len(q)}),
   ev |-> m.ev, cf |-> m.cf, cl |-> m.cl,
   w |-> [i \in 1..Len(m.cl) |-> st[m.cl[i][1]].w]]

(* content needed to rebuild the model from scratch (C09) *)
Content(m) == [ty |-> m.ty, cf |-> m.cf, cl |-> m.cl, ev |-> m.ev]

(* append a call to the log, with the structure expected of model i after it *)
EmitS(rec, i, nms, nfs) ==
  log' = Append(log, rec @@
     [st |-> IF EmitSt = "none" THEN <<>> ELSE <<StructOf(nms[i], nfs)>>,
      others |-> IF EmitSt # "all" THEN <<>> ELSE
                 SetToSeq({[m |-> n, st |-> StructOf(nms[n], nfs)] : n \in (1..Len(nms)) \ {i}})])
Emit(rec) == log' = Append(log, rec)

FacRec(f) == [sc |-> f.sc, raw |-> f.raw, k |-> f.k, w |-> f.w]

(***************************************************************************)
(* Setup: draw the sizes, start with one random field (and a graph)        *)
(***************************************************************************)
Init == sz = <<>> /\ fs = <<>> /\ ms = <<>> /\ log = <<>> /\ done = FALSE

Setup ==
  /\ sz = <<>> /\ ~done
  /\ \E z \in RandomSubset(1, [V -> 1..Len(Sizes)]) : sz' = [v \in V |-> Sizes[z[v]]]
  /\ \E ty \in {Pick(IF On("graph") THEN {"rf", "rf", "graph"} ELSE {"rf"})} :
        /\ ms' = <<EmptyModel(ty)>>
        /\ Emit([o |-> "new", m |-> 1, ty |-> ty])
  /\ UNCHANGED <<fs, done>>

(***************************************************************************)
(* Random tables.                                                          *)
(***************************************************************************)
TabSet(n, zero, bin) ==
  IF Near THEN [1..n -> {1, 16382, 16383, 16384}]
  ELSE IF Weak /\ bin THEN [1..n -> 2..3]
  ELSE IF Low THEN (IF zero THEN [1..n -> 0..1] ELSE [1..n -> 1..2])
  ELSE IF zero THEN [1..n -> 0..3] ELSE [1..n -> 1..4]

RandomTab(n, bin) ==
  \* a set holding one random table
  LET zero == Pick(1..100) <= ZeroPct IN
  RandomSubset(1, TabSet(n, zero, bin))

(* weak coupling: at most one raw image is 1, so that the interaction of a pair stays below *)
(* 0.2 and, with at most 4 neighbours, loopy propagation is a contraction                    *)
RandomRaw(n) == IF Weak THEN {[i \in 1..n |-> IF i = j THEN 1 ELSE 0] : j \in {Pick(0..n)}}
                ELSE RandomSubset(1, [1..n -> 0..(IF Low THEN 1 ELSE 2)])

Mutable(m) == ms[m].ty \in {"rf", "graph"}
MutModels == {m \in 1..Len(ms) : Mutable(m)}
RFs == {m \in 1..Len(ms) : ms[m].ty = "rf"}
CRFs == {m \in 1..Len(ms) : ms[m].ty = "crf"}
Untainted(S) == {m \in S : ~ms[m].taint}

(* a pair may be connected in m: not already, and no cycle unless allowed  *)
BlockOf(v) == ((v - 1) * Blocks) \div NV
PairOK(m, a, b) ==
  /\ a # b /\ BlockOf(a) = BlockOf(b)
  /\ {a, b} \notin PairsOf(ms[m])
  /\ Loops \/ b \notin Grow({a}, PairsOf(ms[m]))

ScopeChoices(m) ==
  {<<v>> : v \in V} \cup {<<p[1], p[2]>> : p \in {q \in V \X V : PairOK(m, q[1], q[2])}}
BinScopes(m) == {s \in ScopeChoices(m) : Len(s) = 2}

(* other models sharing one of the factors, whose caches cannot know *)
Sharing(m, fids) == {n \in 1..Len(ms) : n # m /\ ToSet(FidSeq(ms[n])) \cap fids # {}}

(* every add draws a scope: two times out of three a binary one; in a third of the *)
(* large models most of the pairs involve the variable with most connections        *)
Degree(m, v) == Cardinality({p \in PairsOf(ms[m]) : v \in p})
HubScopes(m) ==
  LET B == BinScopes(m) IN
  IF NV < 8 \/ fs = <<>> \/ SeqSum(fs[1].raw) % 3 # 0 \/ Pick(1..5) = 1 \/ PairsOf(ms[m]) = {} THEN B
  ELSE LET hub == CHOOSE v \in VarsOf(ms[m]) : \A u \in VarsOf(ms[m]) : Degree(m, u) <= Degree(m, v)
           hs == {s \in B : hub \in ToSet(s)}
       IN IF hs = {} THEN B ELSE hs
ScopeDraw(m) ==
  IF BinScopes(m) # {} /\ Pick(1..3) # 1 THEN {Pick(HubScopes(m))} ELSE {Pick(ScopeChoices(m))}

DoAddConst(m, sc, k, raw, w, how) ==
  LET f == [sc |-> sc, raw |-> raw, k |-> IF how = "copy" /\ k = "exp" THEN "frozen" ELSE k, w |-> w]
      fid == Len(fs) + 1
      nm == [ms[m] EXCEPT !.cf = Append(@, fid)]
  IN /\ BitsOK(nm, Append(fs, f))
     /\ fs' = Append(fs, f)
     /\ ms' = [ms EXCEPT ![m] = nm]
     /\ EmitS([o |-> "addC", m |-> m, f |-> fid, def |-> [FacRec(f) EXCEPT !.k = k], how |-> how], m, ms', fs')
     /\ UNCHANGED <<sz, done>>

AddConst ==
  /\ More /\ On("addC") /\ MutModels # {}
  /\ \E m \in {Pick(MutModels)} :
     /\ Len(FidSeq(ms[m])) < MaxFac
     /\ \E sc \in ScopeDraw(m) :
        \E k \in {IF Pick(1..4) = 1 THEN "exp" ELSE "plain"} :
        \E raw \in IF k = "exp" THEN RandomRaw(TabSize(sz, sc)) ELSE RandomTab(TabSize(sz, sc), Len(sc) = 2) :
        \E w \in {IF k = "exp" THEN (IF Weak THEN 0 ELSE Pick(-1..(IF Low THEN 1 ELSE 2))) ELSE 0} :
        \E how \in {Pick({"add", "add", "copy"})} : DoAddConst(m, sc, k, raw, w, how)

(* clusters owning a factor on exactly the group g *)
Owners(m, g) == {i \in 1..Len(ms[m].cl) : \E f \in ToSet(ms[m].cl[i]) : ScopeSet(fs[f]) = g}
TunGroups(m) == {ScopeSet(fs[f]) : f \in ToSet(FlattenSeq(ms[m].cl))}
ShareGroups(m) == {g \in TunGroups(m) : Cardinality(Owners(m, g)) = 1}

DoAddTunable(m, sc, raw, w, how, share) ==
  LET own == IF share = {} THEN 0 ELSE CHOOSE i \in Owners(m, share) : TRUE
      fid == Len(fs) + 1
      f == [sc |-> sc, raw |-> raw, k |-> "exp", w |-> IF own = 0 THEN w ELSE fs[ms[m].cl[own][1]].w]
      nm == [ms[m] EXCEPT !.cl = IF own = 0 THEN Append(@, <<fid>>)
                                 ELSE [@ EXCEPT ![own] = Append(@, fid)]]
  IN /\ BitsOK(nm, Append(fs, f))
     /\ fs' = Append(fs, f)
     /\ ms' = [ms EXCEPT ![m] = nm]
     /\ EmitS([o |-> "addT", m |-> m, f |-> fid, def |-> [FacRec(f) EXCEPT !.w = w], w |-> f.w, how |-> how,
               share |-> SortedSeq(share)], m, ms', fs')
     /\ UNCHANGED <<sz, done>>

AddTunable ==
  /\ More /\ On("addT") /\ RFs # {}
  /\ \E m \in {Pick(RFs)} :
     /\ Len(FidSeq(ms[m])) < MaxFac
     /\ \E sc \in ScopeDraw(m) :
        \E raw \in RandomRaw(TabSize(sz, sc)) :
        \E w \in {IF Weak THEN Pick(0..1) ELSE Pick(-1..(IF Low THEN 1 ELSE 2))} :
        \E how \in {Pick({"add", "copy"})} :
        \E share \in {IF ShareGroups(m) # {} /\ Pick(1..2) = 1 THEN Pick(ShareGroups(m)) ELSE {}} :
          DoAddTunable(m, sc, raw, w, how, share)

(***************************************************************************)
(* Rejected insertions                                                     *)
(***************************************************************************)
AddRejected ==
  /\ More /\ On("addErr") /\ MutModels # {}
  /\ \E m \in {Pick(MutModels)} :
     LET mv == VarsOf(ms[m])
         pairs == PairsOf(ms[m])
         have == ToSet(FidSeq(ms[m]))
         tunh == IF ms[m].ty = "rf" THEN ToSet(FlattenSeq(ms[m].cl)) ELSE {}
         kinds == {"null", "ternary"}
            \cup (IF have # {} THEN {"dupfac"} ELSE {})
            \cup (IF pairs # {} THEN {"dupedge"} ELSE {})
            \cup (IF mv # {} THEN {"clone1", "size1"} ELSE {})
            \cup (IF mv # {} /\ NV > 1 THEN {"clone2a", "clone2b", "size2a", "size2b"} ELSE {})
            \cup (IF ms[m].ty = "rf" /\ BinScopes(m) # {} THEN {"badshare"} ELSE {})
     IN \E kind \in {Pick(kinds)} :
        \E tun \in {IF ms[m].ty = "rf" THEN Pick(BOOLEAN) ELSE FALSE} :
        \E f \in {IF kind = "dupfac" THEN Pick(have) ELSE 0} :
        \E p \in {IF kind = "dupedge" THEN Pick(pairs) ELSE {}} :
        \E v \in {IF kind \in {"clone1", "size1", "clone2a", "clone2b", "size2a", "size2b"} THEN Pick(mv) ELSE 1} :
        \E u \in {IF NV > 1 THEN Pick(V \ {v}) ELSE 1} :
        \E sc \in {IF kind = "badshare" THEN Pick(ScopeChoices(m)) ELSE <<1>>} :
        \E g \in {IF kind = "badshare" THEN
                    Pick({s \in (SUBSET V) : Cardinality(s) \in 1..2 /\ s \notin TunGroups(m)} \cup {{}}) ELSE {}} :
          /\ kind = "badshare" => g # {}
          /\ EmitS([o |-> "addErr", m |-> m, kind |-> kind, tun |-> tun, f |-> f, p |-> SortedSeq(p),
                    v |-> v, u |-> u, sc |-> sc, g |-> SortedSeq(g)], m, ms, fs)
  /\ UNCHANGED <<sz, fs, ms, done>>

(***************************************************************************)
(* Evidences                                                               *)
(***************************************************************************)
EvModels == {m \in MutModels : VarsOf(ms[m]) # {}}

DoSetEvidence(m, v, x, by) ==
  /\ ms' = [ms EXCEPT ![m] = [ms[m] EXCEPT !.ev[v] = x]]
  /\ EmitS([o |-> "setE", m |-> m, v |-> v, x |-> x, by |-> by], m, ms', fs)
  /\ UNCHANGED <<sz, fs, done>>

SetEvidence ==
  /\ More /\ On("setE") /\ EvModels # {}
  /\ \E m \in {Pick(EvModels)} :
     \E v \in {Pick(VarsOf(ms[m]))} :
     \E x \in {Pick(0..(sz[v] - 1))} :
     \E by \in {Pick({"ptr", "name", "clone"})} : DoSetEvidence(m, v, x, by)

ObsModels == {m \in MutModels : Observed(ms[m]) # {}}

DoRemoveEvidence(m, how, S, by) ==
  /\ ms' = [ms EXCEPT ![m] = [ms[m] EXCEPT !.ev = [u \in V |-> IF u \in S THEN -1 ELSE @[u]]]]
  /\ EmitS([o |-> "remE", m |-> m, how |-> how, S |-> SortedSeq(S), by |-> by], m, ms', fs)
  /\ UNCHANGED <<sz, fs, done>>

RemoveEvidence ==
  /\ More /\ On("remE") /\ ObsModels # {}
  /\ \E m \in {Pick(ObsModels)} :
     \E how \in {Pick({"one", "one", "set", "all"})} :
     \E v \in {Pick(Observed(ms[m]))} :
     \E S \in {IF how = "one" THEN {v} ELSE IF how = "all" THEN Observed(ms[m])
               ELSE Pick(SUBSET Observed(ms[m]))} :
     \E by \in {Pick({"ptr", "name", "clone"})} : DoRemoveEvidence(m, how, S, by)

EvidenceRejected ==
  /\ More /\ On("evErr") /\ MutModels # {}
  /\ \E m \in {Pick(MutModels)} :
     LET mv == VarsOf(ms[m])  hid == Hidden(ms[m])  obs == Observed(ms[m])
         kinds == {"unknownName", "unknownVar", "remUnknown"}
            \cup (IF mv # {} THEN {"range"} ELSE {})
            \cup (IF hid # {} THEN {"remHidden"} ELSE {})
            \cup (IF hid # {} /\ obs # {} THEN {"remSet", "remSet"} ELSE {})
     IN \E kind \in {Pick(kinds)} :
        \E v \in {IF kind = "range" THEN Pick(mv) ELSE IF kind \in {"remHidden", "remSet"} THEN Pick(hid) ELSE 1} :
        \E S \in {IF kind = "remSet" THEN {v} \cup Pick(SUBSET obs) ELSE {}} :
        \E by \in {Pick({"ptr", "name"})} :
        \E x \in {IF kind = "range" THEN sz[v] + Pick(0..2) ELSE 0} :
          EmitS([o |-> "evErr", m |-> m, kind |-> kind, v |-> v, x |-> x, S |-> SortedSeq(S), by |-> by],
                m, ms, fs)
  /\ UNCHANGED <<sz, fs, ms, done>>

(***************************************************************************)
(* Weights.  The weights of shared (shallow copied) factors change for     *)
(* every model holding them; answers of those other models are then only   *)
(* specified again after... never: they are marked tainted.                *)
(***************************************************************************)
TunModels == {m \in 1..Len(ms) : ms[m].ty \in {"rf", "crf"} /\ ms[m].cl # <<>>}
TaintOthers(mm, m, fids) ==
  [n \in 1..Len(mm) |-> IF n # m /\ ToSet(FidSeq(mm[n])) \cap fids # {}
                        THEN [mm[n] EXCEPT !.taint = TRUE] ELSE mm[n]]

DoSetWeights(m, ws, ones) ==
  LET fids == ToSet(FlattenSeq(ms[m].cl))
      ClOf(f) == CHOOSE i \in 1..Len(ms[m].cl) : f \in ToSet(ms[m].cl[i])
      nf == [f \in 1..Len(fs) |-> IF f \in fids THEN [fs[f] EXCEPT !.w = ws[ClOf(f)]] ELSE fs[f]]
  IN /\ \A n \in 1..Len(ms) : BitsOK(ms[n], nf)
     \* a factor shared with another model may be clustered differently there: weights
     \* that would differ within one of its clusters are not specified
     /\ \A n \in 1..Len(ms) : \A i \in 1..Len(ms[n].cl) : \A f, g \in ToSet(ms[n].cl[i]) : nf[f].w = nf[g].w
     /\ fs' = nf
     /\ ms' = TaintOthers(ms, m, fids)
     /\ EmitS([o |-> "setW", m |-> m, ws |-> ws, ones |-> ones,
               nw |-> [i \in 1..Cardinality(fids) |->
                        LET f == SortedSeq(fids)[i] IN [f |-> f, w |-> nf[f].w]]], m, ms', fs')
     /\ UNCHANGED <<sz, done>>

SetWeights ==
  /\ More /\ On("setW") /\ TunModels # {}
  /\ \E m \in {Pick(TunModels)} :
     \E ones \in {Pick(1..5) = 1} :
     \E ws \in IF ones THEN {[i \in 1..Len(ms[m].cl) |-> 1]}
               ELSE RandomSubset(1, [1..Len(ms[m].cl) -> IF Weak THEN 0..1 ELSE -1..(IF Low THEN 1 ELSE 2)]) :
       DoSetWeights(m, ws, ones)

WeightsRejected ==
  /\ More /\ On("wErr") /\ {m \in 1..Len(ms) : ms[m].ty \in {"rf", "crf"}} # {}
  /\ \E m \in {Pick({n \in 1..Len(ms) : ms[n].ty \in {"rf", "crf"}})} :
     \E n \in {Pick({Len(ms[m].cl) + 1, Len(ms[m].cl) + 2, IF ms[m].cl = <<>> THEN 1 ELSE Len(ms[m].cl) - 1})} :
       EmitS([o |-> "wErr", m |-> m, n |-> n], m, ms, fs)
  /\ UNCHANGED <<sz, fs, ms, done>>

(***************************************************************************)
(* Queries                                                                 *)
(***************************************************************************)
QModels == Untainted({m \in 1..Len(ms) : VarsOf(ms[m]) # {}})
Report(m) == LET F == FacSet(m)  H == Hidden(m)  CS == Components(F, H) IN
             [i \in 1..Cardinality(CS) |->
                LET c == SetToSeq(CS)[i] IN [n |-> Cardinality(c), tree |-> IsTree(c, F, H)]]

Indicator(v, x) == [i \in 1..sz[v] |-> IF i - 1 = x THEN 1 ELSE 0]

AllTree(m) == LET F == FacSet(m)  H == Hidden(m) IN \A c \in Components(F, H) : IsTree(c, F, H)

(* exactness of one answer *)
QMarg ==
  /\ More /\ On("marg") /\ QModels # {}
  /\ \E m \in {Pick(QModels)} :
     \E v \in {Pick(VarsOf(ms[m]))} :
     \E t \in {Pick(Threads)} :
     \E by \in {Pick({"ptr", "name", "clone"})} :
       LET mm == ms[m]  F == FacSet(mm)  H == Hidden(mm)
           obs == mm.ev[v] >= 0
           C == IF obs THEN {v} ELSE Component(v, F, H)
           tree == obs \/ IsTree(C, F, H)
           ans == IF obs THEN Indicator(v, mm.ev[v]) ELSE AnsMarg(sz, mm.ev, C, FacSeq(mm), tree, v)
       IN /\ SeqSum(ans) > 0
          /\ Emit([o |-> "marg", m |-> m, v |-> v, thr |-> t, by |-> by, ans |-> TLCEval(ans), tree |-> tree,
                   rep |-> IF On("report") THEN Report(mm) ELSE <<>>, weak |-> Weak])
  /\ UNCHANGED <<sz, fs, ms, done>>

(* the marginals of every variable at once (the driver asks them one by one) *)
DoMargAll(m, t, by) ==
  LET mm == ms[m]  F == FacSet(mm)  H == Hidden(mm)
      CS == TLCEval(SetToSeq(Components(F, H)))
      TR == TLCEval([i \in 1..Len(CS) |-> IsTree(CS[i], F, H)])
      W == TLCEval([i \in 1..Len(CS) |-> IF TR[i] THEN TreeOf(sz, mm.ev, CS[i], FacSeq(mm))
                                         ELSE Weights(sz, mm.ev, CS[i], FacSeq(mm))])
      CI(v) == CHOOSE i \in 1..Len(CS) : v \in CS[i]
      An(v) == IF TR[CI(v)] THEN Belief(sz, W[CI(v)], v, FALSE) ELSE Marginal(sz, CS[CI(v)], W[CI(v)], v)
      Z == \A i \in 1..Len(CS) : SeqSum(An(CHOOSE v \in CS[i] : TRUE)) > 0
      vs == SortedSeq(VarsOf(mm))
      Ans(v) == IF mm.ev[v] >= 0 THEN [v |-> v, a |-> Indicator(v, mm.ev[v]), tree |-> TRUE]
                ELSE [v |-> v, a |-> TLCEval(An(v)), tree |-> TR[CI(v)]]
  IN /\ Z
     /\ Emit([o |-> "margAll", m |-> m, thr |-> t, by |-> by,
              ans |-> TLCEval([i \in 1..Len(vs) |-> Ans(vs[i])]),
              rep |-> IF On("report") THEN Report(mm) ELSE <<>>, weak |-> Weak])
     /\ UNCHANGED <<sz, fs, ms, done>>

QMargAll ==
  /\ More /\ On("margAll") /\ QModels # {}
  /\ \E m \in {Pick(QModels)} :
     \E t \in {Pick(Threads)} :
     \E by \in {Pick({"ptr", "name", "clone"})} :
       DoMargAll(m, t, by)

QMap ==
  /\ More /\ On("map") /\ QModels # {}
  /\ \E m \in {Pick(QModels)} :
     \E v \in {Pick(VarsOf(ms[m]))} :
     \E t \in {Pick(Threads)} :
     \E by \in {Pick({"ptr", "name", "clone"})} :
       LET mm == ms[m]  F == FacSet(mm)  H == Hidden(mm)
           obs == mm.ev[v] >= 0
           C == IF obs THEN {v} ELSE Component(v, F, H)
           ans == IF obs THEN Indicator(v, mm.ev[v]) ELSE AnsMax(sz, mm.ev, C, FacSeq(mm), TRUE, v)
       IN /\ (obs \/ IsTree(C, F, H)) /\ SeqSum(ans) > 0
          /\ Emit([o |-> "map", m |-> m, v |-> v, thr |-> t, by |-> by, ans |-> TLCEval(ans),
                   rep |-> IF On("report") THEN Report(mm) ELSE <<>>, weak |-> Weak])
  /\ UNCHANGED <<sz, fs, ms, done>>

DoHiddenMap(m, t) ==
  LET mm == ms[m]  F == FacSet(mm)  H == Hidden(mm)
      CS == TLCEval(SetToSeq(Components(F, H)))
      CI(v) == CHOOSE i \in 1..Len(CS) : v \in CS[i]
      TT == TLCEval([i \in 1..Len(CS) |-> TreeOf(sz, mm.ev, CS[i], FacSeq(mm))])
      hs == SortedSeq(H)
  IN /\ \A c \in ToSet(CS) : IsTree(c, F, H)
     /\ \A i \in 1..Len(CS) : SeqSum(Belief(sz, TT[i], CHOOSE v \in CS[i] : TRUE, TRUE)) > 0
     \* when the most probable assignment is unique, so is the maximiser of each max-marginal,
     \* and they agree (spec/EFGLemma.tla)
     /\ Emit([o |-> "hmap", m |-> m, thr |-> t,
              ans |-> TLCEval([i \in 1..Len(hs) |-> [v |-> hs[i], mm |-> Belief(sz, TT[CI(hs[i])], hs[i], TRUE)]]),
              rep |-> IF On("report") THEN Report(mm) ELSE <<>>, weak |-> Weak])
     /\ UNCHANGED <<sz, fs, ms, done>>

QHiddenMap ==
  /\ More /\ On("hmap") /\ QModels # {}
  /\ \E m \in {Pick(QModels)} :
     \E t \in {Pick(Threads)} :
       DoHiddenMap(m, t)

(* a random sequence without repetition over a set *)
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in {Pick(S)} : TRUE IN <<x>> \o Shuffle(S \ {x})

(* subgroups whose hidden members form one connected subtree per component *)
GroupOK(mm, S) ==
  LET F == FacSet(mm)  H == Hidden(mm) IN
  /\ SeqProd([v \in V |-> IF v \in S THEN sz[v] ELSE 1]) <= 300
  /\ \A c \in Components(F, H) : c \cap S # {} => (IsTree(c, F, H) /\ ConnectedSet(c \cap S, F))

(* such a group of up to k more variables, grown one variable at a time *)
RECURSIVE GrowGroup(_, _, _)
GrowGroup(mm, S, k) ==
  LET cand == IF k = 0 THEN {} ELSE {v \in VarsOf(mm) \ S : GroupOK(mm, S \cup {v})} IN
  IF cand = {} THEN S
  ELSE LET v == CHOOSE y \in {Pick(cand)} : TRUE IN GrowGroup(mm, S \cup {v}, k - 1)

QJoint ==
  /\ More /\ On("joint") /\ QModels # {}
  /\ \E m \in {Pick(QModels)} :
     LET mm == ms[m]  F == FacSet(mm)  H == Hidden(mm)
         small == Cardinality(VarsOf(mm)) <= 6
         cand == IF ~small THEN {} ELSE {S \in SUBSET VarsOf(mm) : S # {} /\ Cardinality(S) <= 5 /\ GroupOK(mm, S)}
         best == {S \in cand : Cardinality(S) >= 2}
     IN \E S \in {IF ~small THEN GrowGroup(mm, {}, Pick(1..7))
                   ELSE IF best # {} /\ Pick(1..5) # 1 THEN Pick(best) ELSE IF cand # {} THEN Pick(cand) ELSE {}} :
        \E g \in {Shuffle(S)} :
        \E t \in {Pick(Threads)} :
        \E by \in {Pick({"ptr", "name"})} :
          LET CS == TLCEval(SetToSeq({c \in Components(F, H) : c \cap S # {}}))
              TT == TLCEval([i \in 1..Len(CS) |-> TreeOf(sz, mm.ev, CS[i], FacSeq(mm))])
              os == SortedSeq(S \cap Observed(mm))
              bh == TLCEval([i \in 1..Len(CS) |-> LET vs == SortedSeq(CS[i] \cap S) IN
                              [vs |-> vs, t |-> SubtreeTable(sz, TT[i], vs)]])
              bo == [i \in 1..Len(os) |-> [vs |-> <<os[i]>>, t |-> Indicator(os[i], mm.ev[os[i]])]]
          IN /\ S # {}
             /\ \A i \in 1..Len(CS) : SeqSum(bh[i].t) > 0
             /\ Emit([o |-> "joint", m |-> m, g |-> g, thr |-> t, by |-> by, blocks |-> bh \o bo])
  /\ UNCHANGED <<sz, fs, ms, done>>

QueryRejected ==
  /\ More /\ On("qErr") /\ Untainted(1..Len(ms)) # {}
  /\ \E m \in {Pick(Untainted(1..Len(ms)))} :
     \E kind \in {Pick({"margName", "margVar", "mapName", "mapVar", "jointName", "jointVar",
                        "thr0marg", "thr0map", "thr0hmap", "thr0joint", "thr0sample"})} :
     \E v \in {IF VarsOf(ms[m]) # {} THEN Pick(VarsOf(ms[m])) ELSE 0} :
       /\ kind \in {"thr0marg", "thr0map", "thr0hmap", "thr0joint", "thr0sample"} => v # 0
       /\ EmitS([o |-> "qErr", m |-> m, kind |-> kind, v |-> v], m, ms, fs)
  /\ UNCHANGED <<sz, fs, ms, done>>

(* the caller configures the number of loopy iterations (before any query: an answer *)
(* already computed is not recomputed because of it)                                   *)
QueryOps == {"marg", "rep", "margAll", "map", "hmap", "joint", "pair", "fresh", "grad", "qErr", "copy", "json", "crf"}
SetIter ==
  /\ More /\ On("iter") /\ Len(ms) > 0
  /\ \E m \in {Pick(1..Len(ms))} : \E n \in {Pick({0, 1, 3, 1000})} :
        /\ \A k \in 1..Len(log) : ~(log[k].o \in QueryOps /\ log[k].m = m)
        /\ Emit([o |-> "iter", m |-> m, n |-> n])
  /\ UNCHANGED <<sz, fs, ms, done>>

(* The caller installs its own way of propagating over cycles: it runs the default one,  *)
(* remembers every call, and ("deny") reports some of them as not completed.  The report  *)
(* must say completed exactly when every call said so.                                    *)
SetStrategy ==
  /\ More /\ On("strat") /\ Len(ms) > 0
  /\ \E m \in {Pick(1..Len(ms))} : \E kind \in {Pick({"record", "deny", "null"})} :
        EmitS([o |-> "strat", m |-> m, kind |-> kind, seed |-> Pick(1..1000)], m, ms, fs)
  /\ UNCHANGED <<sz, fs, ms, done>>

(* a query of which only the report is judged (parts too large for the exact answer) *)
QReport ==
  /\ More /\ On("rep") /\ QModels # {}
  /\ \E m \in {Pick(QModels)} :
     \E v \in {Pick(VarsOf(ms[m]))} :
     \E t \in {Pick(Threads)} :
     \E by \in {Pick({"ptr", "name", "clone"})} :
     \E kind \in {Pick({"sum", "map"})} :
       Emit([o |-> "rep", m |-> m, v |-> v, thr |-> t, by |-> by, kind |-> kind, rep |-> Report(ms[m]), weak |-> FALSE])
  /\ UNCHANGED <<sz, fs, ms, done>>

(* joint marginal of two directly connected hidden variables of any (also cyclic) part *)
QPair ==
  /\ More /\ On("pair") /\ QModels # {}
  /\ \E m \in {Pick(QModels)} :
     LET mm == ms[m]  F == FacSet(mm)  H == Hidden(mm)  E == EdgesOf(F, H) IN
     /\ E # {}
     /\ \E e \in {Pick(E)} : \E g \in {Shuffle(e)} : \E t \in {Pick(Threads)} :
        LET C == Component(g[1], F, H)
            w == Weights(sz, mm.ev, C, FacSeq(mm))
            tab == TLCEval(JointTable(sz, C, w, g))
        IN /\ SeqSum(tab) > 0
           /\ Emit([o |-> "pair", m |-> m, g |-> g, thr |-> t, ans |-> tab, tree |-> IsTree(C, F, H), weak |-> Weak])
  /\ UNCHANGED <<sz, fs, ms, done>>

(* variables whose max-marginals have (nearly) several maximisers *)
Tied(mm) ==
  LET F == FacSet(mm)  H == Hidden(mm)  CS == TLCEval(SetToSeq(Components(F, H)))
      TT == TLCEval([i \in 1..Len(CS) |-> TreeOf(sz, mm.ev, CS[i], FacSeq(mm))])
  IN UNION {{v \in CS[i] : LET q == Belief(sz, TT[i], v, TRUE)  mx == SeqMax(q) IN
                 Cardinality({x \in 1..Len(q) : q[x] >= mx - (mx \div 500)}) > 1} : i \in 1..Len(CS)}

(* Compare with a model built from scratch with the same content (C09) *)
QFresh ==
  /\ More /\ On("fresh") /\ {m \in QModels : Mutable(m)} # {}
  /\ \E m \in {Pick({n \in QModels : Mutable(n)})} :
     \E perm \in {Pick(0..3)} :
     \E kind \in {Pick({"marg", "marg", "map", "joint"})} :
       LET mm == ms[m]  F == FacSet(mm)  H == Hidden(mm)
           ok == \A c \in Components(F, H) : PartitionZ(sz, mm.ev, c, FacSeq(mm), IsTree(c, F, H)) > 0
       IN /\ ok /\ (kind # "marg" => AllTree(mm))
          /\ Emit([o |-> "fresh", m |-> m, perm |-> perm, kind |-> kind, c |-> Content(mm), tree |-> AllTree(mm),
                   tied |-> IF kind = "map" THEN SortedSeq(Tied(mm)) ELSE <<>>])
  /\ UNCHANGED <<sz, fs, ms, done>>

(***************************************************************************)
(* Learning                                                                *)
(***************************************************************************)
RawAt(f, val) == IF Len(f.sc) = 1 THEN f.raw[1 + val[f.sc[1]]]
                 ELSE f.raw[1 + val[f.sc[1]] * sz[f.sc[2]] + val[f.sc[2]]]

(* expectation of the raw image of factor f given evidences ev: <<num, den>> *)
Expect(mm, ev, f) ==
  LET F == FacSet(mm)  H == VarsOf(mm) \ {v \in V : ev[v] >= 0}
      hid == ScopeSet(f) \cap H
  IN IF hid = {} THEN <<RawAt(f, ev), 1>>
     ELSE LET C == Component(CHOOSE v \in hid : TRUE, F, H)
              hs == SelectSeq(f.sc, LAMBDA v : v \in hid)
              tab == SubtreeTable(sz, TreeOf(sz, ev, C, FacSeq(mm)), hs)
              Raw(i) == IF Len(f.sc) = 1 THEN f.raw[i]
                        ELSE IF Len(hs) = 2 THEN f.raw[i]
                        ELSE IF f.sc[1] = hs[1] THEN f.raw[1 + (i - 1) * sz[f.sc[2]] + ev[f.sc[2]]]
                        ELSE f.raw[1 + ev[f.sc[1]] * sz[f.sc[2]] + (i - 1)]
          IN TLCEval(<<SeqSum([i \in 1..Len(tab) |-> tab[i] * Raw(i)]), SeqSum(tab)>>)

SampleSet == [V -> 0..2]
OneSample(z) == [v \in V |-> z[v] % sz[v]]

GradModels == Untainted({m \in 1..Len(ms) : ms[m].ty \in {"rf", "crf"} /\ ms[m].cl # <<>>})

Gradient ==
  /\ More /\ On("grad") /\ GradModels # {}
  /\ \E m \in {Pick(GradModels)} :
     \* the training set of the previous call may be used again
     \E prev \in {SelectSeq(log, LAMBDA x : x.o = "grad" /\ x.m = m)} :
     \E again \in {prev # <<>> /\ Pick(1..3) = 1} :
     \E n \in {IF again THEN Len(prev[Len(prev)].smp) ELSE IF Pick(1..6) = 1 THEN 15 ELSE Pick(1..4)} :
     \* the gradient may be asked on a random part of the training set (in 64-ths)
     \E pct \in {IF again THEN prev[Len(prev)].pct ELSE IF n > 2 THEN Pick({24, 40, 63, 64, 64}) ELSE 64} :
     \E zs \in {TLCEval([i \in 1..n |-> TLCEval([v \in V |-> Pick(0..5)])])} :
     \E t \in {IF again THEN prev[Len(prev)].thr ELSE Pick(Threads)} :
       LET mm == ms[m]
           smp == IF again THEN prev[Len(prev)].smp ELSE TLCEval([i \in 1..n |-> OneSample(zs[i])])
           EvOf(i) == IF mm.ty = "rf" THEN NoEv ELSE [v \in V |-> IF mm.ev[v] >= 0 THEN smp[i][v] ELSE -1]
           evs == IF mm.ty = "rf" THEN <<NoEv>> ELSE [i \in 1..n |-> EvOf(i)]
           Alpha(s) == [i \in 1..Len(mm.cl) |-> SeqSum([j \in 1..Len(mm.cl[i]) |-> RawAt(fs[mm.cl[i][j]], smp[s])])]
           Beta(e) == [i \in 1..Len(mm.cl) |-> TLCEval([j \in 1..Len(mm.cl[i]) |-> Expect(mm, e, fs[mm.cl[i][j]])])]
           \* once per combination of evidences
           BetaOf == TLCEval([e \in ToSet(evs) |-> TLCEval(Beta(e))])
           HidOf(e) == VarsOf(mm) \ {v \in V : e[v] >= 0}
       IN /\ \A e \in ToSet(evs) : \A c \in Components(FacSet(mm), HidOf(e)) :
               IsTree(c, FacSet(mm), HidOf(e)) /\ PartitionZ(sz, e, c, FacSeq(mm), TRUE) > 0
          /\ log' = Append(log, [o |-> "grad", m |-> m, smp |-> smp, thr |-> t, pct |-> pct,
                       alpha |-> TLCEval([s \in 1..n |-> Alpha(s)]),
                       beta |-> TLCEval([e \in 1..Len(evs) |-> BetaOf[evs[e]]])])
          \* a random field drops its evidences; a conditional one keeps the last sample's values
          /\ ms' = [ms EXCEPT ![m].ev = IF mm.ty = "rf" THEN NoEv ELSE [v \in V |-> IF @[v] >= 0 THEN smp[n][v] ELSE -1]]
  /\ UNCHANGED <<sz, fs, done>>

(***************************************************************************)
(* Copies                                                                  *)
(***************************************************************************)
MaxModels == 4
(* answers of model mm are specified (not stale, not impossible, no cycle)  *)
TwinOK(mm) ==
  LET F == FacSet(mm)  H == Hidden(mm) IN
  ~mm.taint /\ \A c \in Components(F, H) : IsTree(c, F, H) /\ PartitionZ(sz, mm.ev, c, FacSeq(mm), TRUE) > 0
(* a composite cluster whose leading group also appears in another cluster *)
Ambiguous(mm) == \E i \in 1..Len(mm.cl) : Len(mm.cl[i]) > 1 /\
   \E j \in 1..Len(mm.cl) : j # i /\ \E f \in ToSet(mm.cl[j]) : ScopeSet(fs[f]) = ScopeSet(fs[mm.cl[i][1]])

Frozen(f) == IF f.k = "exp" THEN [f EXCEPT !.k = "frozen"] ELSE f

(* deep copy of the factors fids: new identities appended to fs *)
IdxIn(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x

CopyModel ==
  /\ More /\ On("copy") /\ Len(ms) < MaxModels /\ Len(ms) > 0
  /\ \E m \in {Pick(1..Len(ms))} :
     \E ty \in {Pick({"rf", "rf", "graph"})} :
     \E deep \in {Pick(BOOLEAN)} :
     \E how \in {IF ~deep /\ ms[m].ty = ty THEN Pick({"ctor", "absorb"}) ELSE "absorb"} :
       LET mm == ms[m]
           all == FidSeq(mm)
           Conv(f) == IF f \in ToSet(mm.cf) \/ ty = "graph" THEN Frozen(fs[f]) ELSE fs[f]
           nfs == IF deep THEN fs \o [i \in 1..Len(all) |-> Conv(all[i])] ELSE fs
           Map(f) == IF deep THEN Len(fs) + IdxIn(all, f) ELSE f
           MapSeq(q) == [i \in 1..Len(q) |-> Map(q[i])]
           nm == IF ty = "graph"
                 THEN [ty |-> ty, cf |-> MapSeq(all), cl |-> <<>>, ev |-> mm.ev, taint |-> FALSE, uni |-> mm.uni]
                 ELSE [ty |-> ty, cf |-> MapSeq(mm.cf), cl |-> [i \in 1..Len(mm.cl) |-> MapSeq(mm.cl[i])],
                       ev |-> mm.ev, taint |-> FALSE, uni |-> mm.uni]
       IN /\ fs' = nfs
          /\ ms' = Append(ms, nm)
          /\ EmitS([o |-> "copy", m |-> m, n |-> Len(ms) + 1, ty |-> ty, deep |-> deep, how |-> how,
                    twin |-> TwinOK(mm),
                    new |-> [i \in 1..Len(all) |-> [f |-> Map(all[i]), from |-> all[i], def |-> FacRec(nfs[Map(all[i])])]]],
                   Len(ms) + 1, ms', fs')
  /\ UNCHANGED <<sz, done>>

(* one more empty model, over the same variables *)
NewModel ==
  /\ More /\ On("fork") /\ Len(ms) < MaxModels /\ Len(ms) > 0
  /\ \E ty \in {Pick({"rf", "graph"})} :
       /\ ms' = Append(ms, EmptyModel(ty))
       /\ Emit([o |-> "new", m |-> Len(ms) + 1, ty |-> ty])
  /\ UNCHANGED <<sz, fs, done>>

(* absorb into an existing, non empty model whose content does not conflict *)
Absorbable(m, d, deep) ==
  LET mm == ms[m]  dd == ms[d]
      pairs == PairsOf(dd) \cup PairsOf(mm)
  IN /\ m # d /\ FidSeq(mm) # <<>> /\ mm.uni = dd.uni
     /\ PairsOf(dd) \cap PairsOf(mm) = {}
     /\ deep \/ ToSet(FidSeq(mm)) \cap ToSet(FidSeq(dd)) = {}
     /\ Len(FidSeq(mm)) + Len(FidSeq(dd)) <= MaxFac
     /\ Loops \/ \A a \in V : Cardinality({e \in pairs : e \subseteq Grow({a}, pairs)}) = Cardinality(Grow({a}, pairs)) - 1
AbsorbInto ==
  /\ More /\ On("absorb") /\ Len(ms) > 1
  /\ \E md \in {Pick({x \in (1..Len(ms)) \X MutModels \X BOOLEAN : Absorbable(x[1], x[2], x[3])} \cup {<<0, 0, TRUE>>})} :
     \E m \in {md[1]} : \E d \in {md[2]} : \E deep \in {md[3]} :
     /\ m # 0
     /\
       LET mm == ms[m]  dd == ms[d]  ty == dd.ty
           all == FidSeq(mm)
           Conv(f) == IF f \in ToSet(mm.cf) \/ ty = "graph" THEN Frozen(fs[f]) ELSE fs[f]
           nfs == IF deep THEN fs \o [i \in 1..Len(all) |-> Conv(all[i])] ELSE fs
           Map(f) == IF deep THEN Len(fs) + IdxIn(all, f) ELSE f
           MapSeq(q) == [i \in 1..Len(q) |-> Map(q[i])]
           nev == [v \in V |-> IF mm.ev[v] >= 0 THEN mm.ev[v] ELSE dd.ev[v]]
           nm == [dd EXCEPT !.ev = nev,
                            !.cf = IF ty = "graph" THEN @ \o MapSeq(all) ELSE @ \o MapSeq(mm.cf),
                            !.cl = IF ty = "graph" THEN @ ELSE @ \o [i \in 1..Len(mm.cl) |-> MapSeq(mm.cl[i])]]
       IN /\ BitsOK(nm, nfs)
          /\ fs' = nfs
          /\ ms' = [ms EXCEPT ![d] = nm]
          /\ EmitS([o |-> "absorb", m |-> m, d |-> d, deep |-> deep,
                    new |-> [i \in 1..Len(all) |-> [f |-> Map(all[i]), from |-> all[i], def |-> FacRec(nfs[Map(all[i])])]]],
                   d, ms', fs')
  /\ UNCHANGED <<sz, done>>

(* JSON export and import into an empty model (structure and answers) *)
JsonCopy ==
  /\ More /\ On("json") /\ Len(ms) < MaxModels /\ Len(ms) > 0
  /\ \E m \in {Pick({n \in 1..Len(ms) : ~Ambiguous(ms[n])} \cup {0})} :
     \E ty \in {Pick({"rf", "rf", "graph"})} :
     \E file \in {Pick(BOOLEAN)} :
       /\ m # 0
       /\ LET mm == ms[m]
              all == FidSeq(mm)
              nfs == fs \o [i \in 1..Len(all) |-> fs[all[i]]]
              Map(f) == Len(fs) + IdxIn(all, f)
              MapSeq(q) == [i \in 1..Len(q) |-> Map(q[i])]
              nm == IF ty = "graph"
                    THEN [ty |-> ty, cf |-> MapSeq(all), cl |-> <<>>, ev |-> mm.ev, taint |-> FALSE, uni |-> Len(ms) + 1]
                    ELSE [ty |-> ty, cf |-> MapSeq(mm.cf), cl |-> [i \in 1..Len(mm.cl) |-> MapSeq(mm.cl[i])],
                          ev |-> mm.ev, taint |-> FALSE, uni |-> Len(ms) + 1]
          IN /\ fs' = nfs
             /\ ms' = Append(ms, nm)
             /\ EmitS([o |-> "json", m |-> m, n |-> Len(ms) + 1, ty |-> ty, file |-> file, twin |-> TwinOK(mm),
                       new |-> [i \in 1..Len(all) |-> [f |-> Map(all[i]), from |-> all[i], def |-> FacRec(fs[all[i]])]]],
                      Len(ms) + 1, ms', fs')
  /\ UNCHANGED <<sz, done>>

(***************************************************************************)
(* Conditional random fields                                               *)
(***************************************************************************)
CrfOK(mm) == /\ Observed(mm) # {}
             /\ \A f \in ToSet(FlattenSeq(mm.cl)) : ~(ScopeSet(fs[f]) \subseteq Observed(mm))

MakeCrf ==
  /\ More /\ On("crf") /\ Len(ms) < MaxModels /\ Len(ms) > 0
  /\ \E m \in {Pick({n \in 1..Len(ms) : ms[n].ty = "rf"} \cup (IF Pick(1..3) = 1 THEN CRFs ELSE {}) \cup {0})} :
     /\ m # 0
     /\ \E deep \in {IF ms[m].ty = "crf" THEN FALSE ELSE Pick(BOOLEAN)} :
       LET mm == ms[m]
           all == FidSeq(mm)
           Conv(f) == IF f \in ToSet(mm.cf) THEN Frozen(fs[f]) ELSE fs[f]
           nfs == IF deep THEN fs \o [i \in 1..Len(all) |-> Conv(all[i])] ELSE fs
           Map(f) == IF deep THEN Len(fs) + IdxIn(all, f) ELSE f
           MapSeq(q) == [i \in 1..Len(q) |-> Map(q[i])]
           ok == CrfOK(mm)
           nm == [ty |-> "crf", cf |-> MapSeq(mm.cf), cl |-> [i \in 1..Len(mm.cl) |-> MapSeq(mm.cl[i])],
                  ev |-> mm.ev, taint |-> FALSE, uni |-> mm.uni]
       IN /\ fs' = IF ok THEN nfs ELSE fs
          /\ ms' = IF ok THEN Append(ms, nm) ELSE ms
          /\ EmitS([o |-> "crf", m |-> m, n |-> Len(ms) + 1, deep |-> deep, ok |-> ok, twin |-> ok /\ TwinOK(mm),
                    new |-> IF ok THEN [i \in 1..Len(all) |-> [f |-> Map(all[i]), from |-> all[i], def |-> FacRec(nfs[Map(all[i])])]]
                            ELSE <<>>],
                   IF ok THEN Len(ms) + 1 ELSE m, ms', fs')
  /\ UNCHANGED <<sz, done>>

CrfSetEvidences ==
  /\ More /\ On("crfE") /\ CRFs # {}
  /\ \E m \in {Pick(CRFs)} :
     \E bad \in {IF On("crfErr") THEN Pick({"", "", "", "short", "long", "range"}) ELSE ""} :
     \E z \in RandomSubset(1, [V -> 0..5]) :
     \E b \in {Pick(Observed(ms[m]))} :
       LET val == [v \in V |-> IF ms[m].ev[v] < 0 THEN -1
                               ELSE IF bad = "range" /\ v = b THEN sz[v] + (z[v] % 2) ELSE z[v] % sz[v]]
           nm == [ms[m] EXCEPT !.ev = val]
       IN /\ ms' = IF bad = "" THEN [ms EXCEPT ![m] = nm] ELSE ms
          /\ EmitS([o |-> "crfE", m |-> m, val |-> val, bad |-> bad], m, ms', fs)
  /\ UNCHANGED <<sz, fs, done>>

(***************************************************************************)
(* Sampling                                                                *)
(***************************************************************************)
Positive(mm) == \A f \in ToSet(FidSeq(mm)) : fs[f].k # "plain" \/ \A i \in 1..Len(fs[f].raw) : fs[f].raw[i] > 0

Sample ==
  /\ More /\ On("sample") /\ QModels # {}
  /\ \E m \in {Pick(QModels)} :
     \E n \in {Pick({0, 1, 5, 17, 18, 70, Pick({17, 120})})} :
     \E d \in {LET x == Pick({-1, 0, 1, 2, 3, 11, Pick({1, 130})}) IN IF n * x > 1200 THEN 3 ELSE x} :
     \E b \in {Pick({-1, 0, 1, 4, 25, Pick({9, 300})})} :
     \E s \in {Pick({0, 1, Pick(2..100000), Pick(2..100000), Pick(2..100000)})} :
     \E t \in {Pick(Threads)} :
       /\ Positive(ms[m]) \/ On("sampleZ")
       /\ EmitS([o |-> "sample", m |-> m, n |-> n, d |-> d, b |-> b, seed |-> s, thr |-> t, ev |-> ms[m].ev,
                 vars |-> SortedSeq(VarsOf(ms[m]))], m, ms, fs)
  /\ UNCHANGED <<sz, fs, ms, done>>

(* The exact distribution the samples must follow: per connected part of the  *)
(* hidden variables, the weight of every combination.  pos: the chain can     *)
(* reach every combination, so the frequencies converge to it; otherwise it   *)
(* must stay where the weight is positive.                                    *)
Frequencies ==
  /\ More /\ On("freq") /\ QModels # {}
  /\ Cardinality({k \in 1..Len(log) : log[k].o = "freq"}) < 2 /\ Len(log) >= 5
  /\ \E m \in {Pick(QModels)} :
     \* -1: the seed is left to the library
     \E s \in {Pick({-1, 0, Pick(1..12), Pick(0..100000), Pick(0..100000)})} :
     \E t \in {Pick(Threads)} :
       LET mm == ms[m]  F == FacSet(mm)  H == Hidden(mm)
           CS == TLCEval(SetToSeq(Components(F, H)))
           tab == TLCEval([i \in 1..Len(CS) |-> [vs |-> SortedSeq(CS[i]), t |-> Weights(sz, mm.ev, CS[i], FacSeq(mm))]])
       IN /\ Len(CS) > 0
          /\ \A i \in 1..Len(CS) : Len(tab[i].t) <= 512
          /\ Positive(mm) \/ \A i \in 1..Len(CS) : tab[i].t[1] > 0
          /\ Emit([o |-> "freq", m |-> m, seed |-> s, thr |-> t, ev |-> mm.ev, pos |-> Positive(mm), tab |-> tab])
  /\ UNCHANGED <<sz, fs, ms, done>>

MakeTrainSet ==
  /\ More /\ On("mts") /\ CRFs # {}
  /\ \E m \in {Pick(CRFs)} :
     \E n \in {Pick({1, 2, 5})} :
     \E pct \in {Pick({-1, 0, 5, 10, 25, 30, 50, 75, 99, 100, 100, 100, 101})} :
     \E s \in {Pick(0..100000)} :
     \E t \in {Pick(Threads)} :
       /\ Positive(ms[m])
       /\ SeqProd([v \in V |-> IF ms[m].ev[v] >= 0 THEN sz[v] ELSE 1]) <= 40
       \* the evidences afterwards are left at some visited combination: not specified, so reassign them
       /\ EmitS([o |-> "mts", m |-> m, n |-> n, pct |-> pct, seed |-> s, thr |-> t, ev |-> ms[m].ev,
                 vars |-> SortedSeq(VarsOf(ms[m]))], m, ms, fs)
  /\ UNCHANGED <<sz, fs, ms, done>>

Finish ==
  /\ ~done /\ Len(log) >= Depth
  /\ PrintT("@@" \o ToJson([nv |-> NV, sz |-> sz, ops |-> log]))
  /\ done' = TRUE
  /\ UNCHANGED <<sz, fs, ms, log>>

AddConst2 == AddConst
AddConst3 == AddConst
AddTunable2 == AddTunable
QMargAll2 == QMargAll
SetEvidence2 == SetEvidence

Next ==
  \/ Setup
  \/ AddConst \/ AddConst2 \/ AddConst3 \/ AddTunable \/ AddTunable2 \/ AddRejected
  \/ SetEvidence \/ SetEvidence2 \/ RemoveEvidence \/ EvidenceRejected
  \/ SetWeights \/ WeightsRejected
  \/ QMarg \/ QMargAll \/ QMargAll2 \/ QMap \/ QHiddenMap \/ QJoint \/ QPair \/ SetIter \/ SetStrategy \/ QReport \/ QueryRejected \/ QFresh
  \/ Gradient \/ NewModel \/ CopyModel \/ AbsorbInto \/ JsonCopy \/ MakeCrf \/ CrfSetEvidences
  \/ Sample \/ MakeTrainSet \/ Frequencies
  \/ Finish

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Sanity invariants of the specification itself (checked on every         *)
(* simulated state).                                                       *)
(***************************************************************************)
TypeOK ==
  /\ \A m \in 1..Len(ms) :
       /\ ToSet(FidSeq(ms[m])) \subseteq 1..Len(fs)
       /\ Cardinality(ToSet(FidSeq(ms[m]))) = Len(FidSeq(ms[m]))
       /\ Observed(ms[m]) \subseteq VarsOf(ms[m])
       /\ \A v \in V : sz # <<>> => ms[m].ev[v] < sz[v]
(* weights are equal within a cluster *)
ClusterWeights ==
  \A m \in 1..Len(ms) : \A i \in 1..Len(ms[m].cl) : \A f, g \in ToSet(ms[m].cl[i]) : fs[f].w = fs[g].w
(* at most one factor per pair, and acyclic unless Loops *)
PairsOnce ==
  \A m \in 1..Len(ms) : Cardinality(PairsOf(ms[m])) =
      Cardinality({f \in ToSet(FidSeq(ms[m])) : Len(fs[f].sc) = 2})
=============================================================================
