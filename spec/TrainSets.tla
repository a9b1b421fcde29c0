----------------------------- MODULE TrainSets -----------------------------
(***************************************************************************)
(* Training sets, their iterators and the text files they (and the images  *)
(* of factors) are read from (C22).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt
CONSTANTS Depth
Pick(S) == RandomElement(S)
VARIABLES ts,   \* training sets created so far
          log, done
vars == <<ts, log, done>>
Init == ts = <<>> /\ log = <<>> /\ done = FALSE
More == ~done /\ Len(log) < Depth
Emit(r) == log' = Append(log, r)

Rows(n, w) == TLCEval(LET top == Pick({1, 11, 11, 300, 100000}) IN [i \in 1..n |-> TLCEval([k \in 1..w |-> Pick(0..top)])])
ValidRows(r) == r # <<>> /\ \A i \in 1..Len(r) : Len(r[i]) = Len(r[1]) /\ Len(r[i]) > 0

(* a list of rows: usually rectangular, sometimes not *)
\* with a parameter: TLC evaluates only once the constant definitions without any
RowsDraw(d) ==
  CHOOSE r \in {IF n > 0 /\ bad = 1 THEN [base EXCEPT ![(k % n) + 1] = IF k > 50 THEN Append(@, 0) ELSE Tail(@)] ELSE base :
       <<n, bad, k, base>> \in UNION {{<<m[1], m[2], m[3], IF m[1] = 0 THEN <<>> ELSE Rows(m[1], m[4])>>} :
            m \in {<<Pick({0, 1, 1, 2, 3, 5, 8, 40, 200}), Pick(1..4), Pick(1..100), Pick({1, 1, 2, 3, 5, 12, 40})>>}}} : TRUE

New ==
  /\ More /\ Len(ts) < 5
  /\ \E r \in {RowsDraw(0)} :
       /\ ts' = IF ValidRows(r) THEN Append(ts, r) ELSE ts
       /\ Emit([o |-> "new", rows |-> r, ok |-> ValidRows(r)])
  /\ UNCHANGED done

(* the same from a file; layout = how the file is written *)
File ==
  /\ More /\ Len(ts) < 5
  /\ \E r \in {RowsDraw(0)} :
     \E lay \in {Pick({"nl", "nonl", "tabs", "spaces", "crlf", "blank"})} :
       LET ok == ValidRows(r) IN
       /\ \A i \in 1..Len(r) : Len(r[i]) > 0    \* an empty line is no row
       /\ ts' = IF ok THEN Append(ts, r) ELSE ts
       /\ Emit([o |-> "file", rows |-> r, lay |-> lay, ok |-> ok])
  /\ UNCHANGED done

Missing ==
  /\ More /\ Emit([o |-> "missing", fac |-> Pick(BOOLEAN)]) /\ UNCHANGED <<ts, done>>

Full ==
  /\ More /\ ts # <<>>
  /\ \E i \in {Pick(1..Len(ts))} : Emit([o |-> "full", i |-> i, n |-> Len(ts[i])])
  /\ UNCHANGED <<ts, done>>

(* percentages are multiples of 1/64, exact in binary floating point *)
Partial ==
  /\ More /\ ts # <<>>
  /\ \E i \in {Pick(1..Len(ts))} : \E p \in {Pick({-64, -1, 0, 1, 8, 16, 24, 32, 48, 63, 64, 65, 128})} :
       LET ok == p > 0 /\ p <= 64 IN
       Emit([o |-> "part", i |-> i, p |-> p, ok |-> ok, n |-> IF ok THEN (p * Len(ts[i])) \div 64 ELSE 0])
  /\ UNCHANGED <<ts, done>>

(* images of a factor read from a file: rows of values followed by an image *)
Factor ==
  /\ More
  /\ \E sz \in {[i \in 1..Pick(1..3) |-> Pick(1..3)]} :
     \E n \in {Pick(0..9)} :
     \E bad \in {Pick({"", "", "", "range", "width", "neg"})} :
     \E lay \in {Pick({"nl", "nonl", "tabs", "spaces", "crlf", "blank"})} :
       LET rows == [k \in 1..n |-> [c |-> [i \in 1..Len(sz) |-> Pick(0..(sz[i] - 1))], img |-> Pick(0..9)]]
           b == IF n = 0 THEN 0 ELSE Pick(1..n)
           rr == IF n = 0 \/ bad = "" THEN rows
                 ELSE [rows EXCEPT ![b] =
                   IF bad = "range" THEN [@ EXCEPT !.c = [i \in 1..Len(sz) |-> IF i = 1 THEN sz[1] + Pick(0..2) ELSE @[i]]]
                   ELSE IF bad = "width" THEN [@ EXCEPT !.c = Append(@, 0)]
                   ELSE [@ EXCEPT !.img = -1]]
       IN Emit([o |-> "factor", sz |-> sz, rows |-> TLCEval(rr), lay |-> lay, ok |-> n = 0 \/ bad = "",
                pre |-> Pick(BOOLEAN)])
  /\ UNCHANGED <<ts, done>>

Finish ==
  /\ ~done /\ Len(log) >= Depth
  /\ PrintT("@@" \o ToJson([spec |-> "train", ops |-> log]))
  /\ done' = TRUE
  /\ UNCHANGED <<ts, log>>
Next == New \/ File \/ Missing \/ Full \/ Partial \/ Factor \/ Finish
Spec == Init /\ [][Next]_vars
Rectangular == \A i \in 1..Len(ts) : ValidRows(ts[i])
=============================================================================
