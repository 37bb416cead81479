------------------------------- MODULE TraceLib -------------------------------
(* Shared by the trace specifications: the recorded events and the property   *)
(* whose fields are to be compared.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS

VARIABLE l          \* next line of the trace
E == Trace[l]
More == l <= Len(Trace)
Is(e) == More /\ E.e = e /\ l' = l + 1

Field(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
Idx(s) == 1..Len(s)
Elems(s) == {s[i] : i \in Idx(s)}

(* events that were consumed without being judged (workers = 1) *)
ASSUME TLCSet(7, 0)
Unjudged == TLCSet(7, TLCGet(7) + 1)

(* the trace is accepted when every line could be matched *)
Accepted ==
    LET d == TLCGet("stats").diameter
    IN  IF d = Len(Trace) + 1 THEN PrintT("TRACE-ACCEPTED " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet(7)))
        ELSE PrintT("TRACE-REJECTED " \o ToString(d))
=============================================================================
