----------------------------- MODULE PoolTrace -----------------------------
(***************************************************************************)
(* Events recorded from the real pool must be behaviours of Pool.          *)
(* trace.ndjson: one recorded run (a sequence of events) per line.         *)
(***************************************************************************)
EXTENDS Pool, TLC, Json
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES tr, pos, bad
tvars == <<pvars, tr, pos, bad>>

TInit == PInit /\ tr \in 1..Len(Traces) /\ pos = 1 /\ bad = FALSE
E == Traces[tr][pos]
Match ==
  \/ E.e = "new" /\ New(E.n)
  \/ E.e = "call" /\ Call(E.c, E.n)
  \/ E.e = "b" /\ Begin(E.c, E.t, E.w)
  \/ E.e = "f" /\ End(E.c, E.t, E.w)
  \/ E.e = "ret" /\ Return(E.c)
  \/ E.e = "del" /\ Destroy
Step == ~bad /\ pos <= Len(Traces[tr]) /\ Match /\ pos' = pos + 1 /\ UNCHANGED <<tr, bad>>
Stuck ==
  /\ ~bad /\ pos <= Len(Traces[tr]) /\ ~ENABLED Match
  /\ PrintT("@@REJECTED event " \o ToString(pos) \o " of recorded run " \o ToString(tr) \o ": "
            \o ToString(E) \o " is not possible after " \o ToString([i \in 1..(pos - 1) |-> Traces[tr][i]]))
  /\ bad' = TRUE /\ UNCHANGED <<pvars, tr, pos>>
TraceSpec == TInit /\ [][Step \/ Stuck]_tvars
Good == ~bad
Accepted == TRUE
(* every call returned, the pool was destroyed *)
=============================================================================
