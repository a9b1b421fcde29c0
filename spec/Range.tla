------------------------------- MODULE Range -------------------------------
(***************************************************************************)
(* Iterators over the joint domain of a group of variables (C01).          *)
(*                                                                         *)
(* An iterator is a combination or the end of the range; advancing is the  *)
(* odometer step.  RangeEnum (below, SpecEnum) checks exhaustively that    *)
(* the odometer visits all the combinations, once, in lexicographic order; *)
(* Spec draws histories of operations over several iterators, also over    *)
(* domains too large to be enumerated.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt
CONSTANTS MaxVars, MaxSize, Depth

END == <<-1>>      \* no combination: values are never negative
Pick(S) == RandomElement(S)
Zeros(s) == [i \in 1..Len(s) |-> 0]

(* the odometer: last variable fastest *)
Step(s, c) ==
  IF \A i \in 1..Len(s) : c[i] = s[i] - 1 THEN END
  ELSE LET k == CHOOSE i \in 1..Len(s) : c[i] < s[i] - 1 /\ \A j \in (i + 1)..Len(s) : c[j] = s[j] - 1
       IN [i \in 1..Len(s) |-> IF i < k THEN c[i] ELSE IF i = k THEN c[i] + 1 ELSE 0]

(* n steps at once: mixed radix addition, the end when the carry leaves the first digit *)
RECURSIVE Carry(_, _, _, _)
Carry(s, c, k, n) ==
  IF n = 0 THEN c ELSE IF k = 0 THEN END
  ELSE Carry(s, [c EXCEPT ![k] = (@ + n) % s[k]], k - 1, (c[k] + n) \div s[k])
StepN(s, c, n) == IF c = END THEN END ELSE Carry(s, c, Len(s), n)

VARIABLES sizes, its, log, done
vars == <<sizes, its, log, done>>

(***************************************************************************)
(* Histories                                                               *)
(***************************************************************************)
Init == sizes = <<>> /\ its = <<>> /\ log = <<>> /\ done = FALSE
More == ~done /\ sizes # <<>> /\ Len(log) < Depth

Setup ==
  /\ sizes = <<>> /\ ~done
  /\ \E mode \in {Pick({"any", "any", "many", "large"})} :
     \E n \in {IF mode = "many" THEN Pick(20..40) ELSE IF mode = "large" THEN Pick(1..3) ELSE Pick(1..MaxVars)} :
     \E z \in {TLCEval([i \in 1..n |-> IF mode = "large" THEN Pick({1, 2, 9, 17, 255, 256, 257, 1000}) ELSE Pick(1..MaxSize)])} :
       sizes' = z
  /\ UNCHANGED <<its, log, done>>

Val(c) == IF c = END THEN <<>> ELSE c
Emit(r) == log' = Append(log, r)

New ==
  /\ More /\ Len(its) < 6
  /\ its' = Append(its, Zeros(sizes))
  /\ Emit([o |-> "new", grp |-> Pick(BOOLEAN), val |-> Zeros(sizes)])
  /\ UNCHANGED <<sizes, done>>

Copy ==
  /\ More /\ its # <<>> /\ Len(its) < 6
  /\ \E i \in {Pick(1..Len(its))} :
       /\ its' = Append(its, its[i])
       /\ Emit([o |-> "copy", i |-> i, end |-> its[i] = END, val |-> Val(its[i])])
  /\ UNCHANGED <<sizes, done>>

(* advance n times; advancing an ended iterator is rejected and it stays at the end *)
Inc ==
  /\ More /\ its # <<>>
  /\ \E i \in {Pick(1..Len(its))} : \E n \in {Pick({1, 1, 2, 3, 7, 20, 100, 255, 300})} :
       LET c == StepN(sizes, its[i], n) IN
       /\ its[i] # END
       /\ its' = [its EXCEPT ![i] = c]
       /\ Emit([o |-> "inc", i |-> i, n |-> n, end |-> c = END, val |-> Val(c)])
  /\ UNCHANGED <<sizes, done>>

IncEnd ==
  /\ More /\ {i \in 1..Len(its) : its[i] = END} # {}
  /\ \E i \in {Pick({j \in 1..Len(its) : its[j] = END})} : Emit([o |-> "incEnd", i |-> i])
  /\ UNCHANGED <<sizes, its, done>>

Compare ==
  /\ More /\ Len(its) > 1
  /\ \E i \in {Pick(1..Len(its))} : \E j \in {Pick(1..Len(its))} :
       Emit([o |-> "cmp", i |-> i, j |-> j, eq |-> its[i] = its[j]])
  /\ UNCHANGED <<sizes, its, done>>

Finish ==
  /\ ~done /\ Len(log) >= Depth
  /\ PrintT("@@" \o ToJson([spec |-> "range", sizes |-> sizes, ops |-> log]))
  /\ done' = TRUE
  /\ UNCHANGED <<sizes, its, log>>

Inc2 == Inc
Inc3 == Inc
Next == Setup \/ New \/ Copy \/ Inc \/ Inc2 \/ Inc3 \/ IncEnd \/ Compare \/ Finish
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Exhaustive enumeration: one iterator over every vector of sizes         *)
(***************************************************************************)
AllSizes == UNION {[1..n -> 1..MaxSize] : n \in 1..MaxVars}
EnumInit == /\ sizes \in AllSizes /\ its = <<Zeros(sizes)>> /\ log = <<Zeros(sizes)>> /\ done = FALSE
EnumStep ==
  /\ ~done
  /\ LET c == Step(sizes, its[1]) IN
     /\ its' = <<c>>
     /\ IF c = END THEN /\ done' = TRUE /\ UNCHANGED log
                        /\ PrintT("@@" \o ToJson([spec |-> "enum", sizes |-> sizes, all |-> FlattenSeq(log)]))
        ELSE log' = Append(log, c) /\ UNCHANGED done
  /\ UNCHANGED sizes
SpecEnum == EnumInit /\ [][EnumStep]_vars /\ WF_vars(EnumStep)

LexLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
(* the position in lexicographic order of the current combination is the number of steps *)
RECURSIVE Pos(_, _)
Pos(s, c) == IF s = <<>> THEN 0 ELSE c[1] * Prod(Tail(s)) + Pos(Tail(s), Tail(c))
InOrder == its[1] # END => /\ Pos(sizes, its[1]) = Len(log) - 1
                           /\ Len(log) > 1 => LexLess(log[Len(log) - 1], log[Len(log)])
InRange == its[1] # END => \A i \in 1..Len(sizes) : its[1][i] \in 0..(sizes[i] - 1)
(* the mixed radix addition agrees with single steps *)
RECURSIVE Steps(_, _, _)
Steps(s, c, n) == IF n = 0 \/ c = END THEN c ELSE Steps(s, Step(s, c), n - 1)
FastSteps == its[1] # END => \A n \in {1, 2, 5} : StepN(sizes, its[1], n) = Steps(sizes, its[1], n)
Complete == done => Len(log) = Prod(sizes)
Terminates == <>done
=============================================================================
