----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What all trace specifications share.  A trace is a file of JSON events  *)
(* recorded from the real code by a program in harness/; l is the next     *)
(* event.  A trace specification extends the specification of one part of  *)
(* the system and lets each of its actions happen only as the next event   *)
(* of the trace; the trace is accepted when all of it has been consumed.   *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Sequences, Naturals

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the identifiers of the findings committed in known_findings.json
Known == LET k == JsonDeserialize(IOEnv.KNOWN).findings
         IN  {k[i].id : i \in DOMAIN k}

ev == Trace[l]
Is(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Has(f) == f \in DOMAIN ev

\* a condition with a name, so that a rejected trace says what failed
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"FAILS", name, l>>) /\ FALSE
\* the same for an action, which TLC must not evaluate as a condition
Act(name, action) == action

\* a listed deviation of the code from the property: allowed, and reported
Deviates(name) == name \in Known /\ PrintT(<<"DEVIATION", name, l>>)

TraceAccepted ==
    \/ TLCGet("stats").diameter - 1 = Len(Trace)
    \/ PrintT(<<"TRACE-REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
