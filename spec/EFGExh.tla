------------------------------- MODULE EFGExh -------------------------------
(***************************************************************************)
(* Every history of `Steps' calls on a few small models, followed by both  *)
(* kinds of queries.  The answers of the implementation depend on its      *)
(* caches (messages, merged unaries, connections cut by evidences, kind of *)
(* the last propagation), which are not part of the abstract state: what   *)
(* has to be explored are the histories, not the abstract states, hence    *)
(* the log is part of the state.  The calls are those of EFGModel.         *)
(***************************************************************************)
EXTENDS EFGModel
CONSTANTS Starts, Steps
VARIABLE st
xvars == <<vars, st>>

PC(sc, raw) == [sc |-> sc, raw |-> raw, k |-> "plain", w |-> 0, sh |-> {}]
PT(sc, raw, w) == [sc |-> sc, raw |-> raw, k |-> "exp", w |-> w, sh |-> {}]
PS(sc, raw, w, g) == [PT(sc, raw, w) EXCEPT !.sh = g]
Preset == <<
  \* a chain of constant factors, two tunable unaries
  <<PC(<<1, 2>>, <<1, 3, 2, 1>>), PC(<<2, 3>>, <<2, 1, 3, 1, 4, 1>>), PT(<<1>>, <<0, 1>>, 1), PT(<<3>>, <<0, 2, 1>>, -1)>>,
  \* the middle variable comes last in a factor and first in the other; constant unary in the middle
  <<PT(<<2, 1>>, <<2, 0, 1, 1>>, 1), PC(<<3, 2>>, <<1, 2, 4, 1, 3, 1>>), PC(<<2>>, <<3, 1>>)>>,
  \* shared weight
  <<PT(<<1, 2>>, <<1, 0, 0, 2>>, 1), PS(<<3, 2>>, <<0, 1, 2, 0, 1, 1>>, 1, {1, 2}), PC(<<1>>, <<1, 3>>)>>,
  \* a triangle, a tree only when one of its variables is observed
  <<PC(<<1, 2>>, <<2, 1, 1, 3>>), PC(<<2, 3>>, <<1, 2, 1, 3, 1, 1>>), PC(<<3, 1>>, <<1, 2, 2, 1, 3, 1>>), PT(<<1>>, <<0, 1>>, 1)>>,
  \* two parts
  <<PC(<<2, 1>>, <<1, 2, 4, 1>>), PT(<<3>>, <<2, 0, 1>>, 1), PT(<<3>>, <<0, 1, 1>>, 2)>>,
  \* two parts, some variables observed from the start
  <<PT(<<1, 2>>, <<1, 0, 2, 1>>, 1), PC(<<3>>, <<1, 2, 4>>), PC(<<2>>, <<1, 3>>)>>,
  \* three parts, all observed from the start
  <<PC(<<1>>, <<1, 3>>), PT(<<2>>, <<1, 0>>, 1), PC(<<3>>, <<3, 1, 2>>)>> >>
(* evidences set at the start: <<variable, value>> *)
PEv == << <<>>, <<>>, <<>>, <<>>, <<>>, << <<1, 1>>, <<3, 2>> >>, << <<1, 1>>, <<2, 1>>, <<3, 1>> >> >>

PFac(p) == [sc |-> p.sc, raw |-> p.raw, k |-> p.k, w |-> p.w]
POwner(q, i) == IF q[i].sh = {} THEN i ELSE CHOOSE j \in 1..(i - 1) : ToSet(q[j].sc) = q[i].sh
PTun(q) == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : q[i].k = "exp")
PHeads(q) == SelectSeq(PTun(q), LAMBDA i : q[i].sh = {})
ModelOf(q, e) ==
  [EmptyModel("rf") EXCEPT !.ev = [v \in V |-> IF \E i \in 1..Len(e) : e[i][1] = v
                                                     THEN e[CHOOSE i \in 1..Len(e) : e[i][1] = v][2] ELSE -1],
                           !.cf = SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : q[i].k = "plain"),
                           !.cl = [c \in 1..Len(PHeads(q)) |-> SelectSeq(PTun(q), LAMBDA i : POwner(q, i) = PHeads(q)[c])]]
PCalls(q) ==
  <<[o |-> "new", m |-> 1, ty |-> "rf"]>> \o
  [i \in 1..Len(q) |->
     IF q[i].k = "plain" THEN [o |-> "addC", m |-> 1, f |-> i, def |-> FacRec(PFac(q[i])), how |-> "add", st |-> <<>>, others |-> <<>>]
     ELSE [o |-> "addT", m |-> 1, f |-> i, def |-> FacRec(PFac(q[i])), w |-> q[i].w, how |-> "add",
           share |-> SortedSeq(q[i].sh), st |-> <<>>, others |-> <<>>]]

XInit ==
  /\ st \in Starts
  /\ sz = <<2, 2, 3>>
  /\ fs = [i \in 1..Len(Preset[st]) |-> PFac(Preset[st][i])]
  /\ ms = <<ModelOf(Preset[st], PEv[st])>>
  /\ log = PCalls(Preset[st]) \o
            [i \in 1..Len(PEv[st]) |-> [o |-> "setE", m |-> 1, v |-> PEv[st][i][1], x |-> PEv[st][i][2], by |-> "ptr",
                                        st |-> <<>>, others |-> <<>>]]
  /\ done = FALSE

XBase == Len(Preset[st]) + 1 + Len(PEv[st])
XK == Len(log) - XBase
XThr == 1 + (Len(log) % 2)
XFree == XK < Steps /\ ~done
XNCl == Len(ms[1].cl)

XSetE == XFree /\ \E v \in VarsOf(ms[1]) : \E x \in {0, sz[v] - 1} : DoSetEvidence(1, v, x, "ptr")
XRemE == XFree /\ \E v \in Observed(ms[1]) : DoRemoveEvidence(1, "one", {v}, "name")
XRemAll == XFree /\ Cardinality(Observed(ms[1])) > 1 /\ DoRemoveEvidence(1, "all", Observed(ms[1]), "ptr")
XMarg == XFree /\ DoMargAll(1, XThr, "ptr")
XMap == XFree /\ AllTree(ms[1]) /\ DoHiddenMap(1, XThr)
XSetW == XFree /\ \E ws \in {[i \in 1..XNCl |-> IF i % 2 = 1 THEN 2 ELSE -1], [i \in 1..XNCl |-> 0]} : DoSetWeights(1, ws, FALSE)
XExtra == Len(fs) > Len(Preset[st])
XAddC == XFree /\ ~XExtra /\ DoAddConst(1, <<2>>, "plain", <<1, 4>>, 0, "add")
(* a factor that connects two variables *)
XAddB == XFree /\ ~XExtra /\ \E p \in {<<1, 3>>, <<3, 2>>} :
           {p[1], p[2]} \notin PairsOf(ms[1]) /\ DoAddConst(1, p, "plain", IF p[1] = 1 THEN <<1, 3, 2, 4, 1, 2>> ELSE <<3, 1, 1, 2, 4, 1>>, 0, "add")
XAddT == XFree /\ ~XExtra /\ DoAddTunable(1, <<1>>, <<1, 0>>, 2, "add", {})

(* both kinds of queries at the end, the one that was not the last first *)
XLast == log[XBase + Steps].o
FinalMarg == /\ XK \in {Steps, Steps + 1} /\ ~done
             /\ IF XLast = "margAll" THEN XK = Steps + 1 \/ ~AllTree(ms[1]) ELSE XK = Steps
             /\ DoMargAll(1, XThr, "name")
FinalMap == /\ XK \in {Steps, Steps + 1} /\ ~done /\ AllTree(ms[1])
            /\ IF XLast = "margAll" THEN XK = Steps ELSE XK = Steps + 1
            /\ DoHiddenMap(1, XThr)
XFinish ==
  /\ ~done /\ (XK = Steps + 2 \/ (XK = Steps + 1 /\ ~AllTree(ms[1])))
  /\ PrintT("@@" \o ToJson([nv |-> NV, sz |-> sz, ops |-> log]))
  /\ done' = TRUE /\ UNCHANGED <<sz, fs, ms, log>>

XNext == /\ (XSetE \/ XRemE \/ XRemAll \/ XMarg \/ XMap \/ XSetW \/ XAddC \/ XAddB \/ XAddT \/ FinalMarg \/ FinalMap \/ XFinish)
         /\ UNCHANGED st
XSpec == XInit /\ [][XNext]_xvars
(* every history ends with the queries *)
Ends == <>done
=============================================================================
