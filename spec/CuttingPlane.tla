---------------------------- MODULE CuttingPlane ----------------------------
(***************************************************************************)
(* The three cutting-plane drivers, between an oracle and a search space.  *)
(*                                                                         *)
(*   "feas"  find a feasible point                                         *)
(*   "dc"    minimise: the oracle lowers the best value, the driver keeps  *)
(*           the centre at which it was last lowered                       *)
(*   "q"     minimise over discrete points: the oracle supplies the point  *)
(*           and may offer an alternative when its cut had no effect       *)
(*                                                                         *)
(* Centres, cuts and values are opaque here; the oracle and the space are  *)
(* the environment and may answer anything.  One action per call that      *)
(* crosses the driver's boundary: Begin, Ask (the oracle), Apply (the      *)
(* space), Finish (the return).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoPoint == -1
Verdicts == {"success", "nosoln", "noeffect"}

VARIABLES
    mode,     \* which driver
    maxit,    \* its iteration limit
    pc,       \* "idle" | "ask" | "apply" | "ready" (a result is due)
    centre,   \* centre of the space
    value,    \* best-so-far value
    value0,   \* the value it started from
    pending,  \* the cut that the space has not been given yet
    alt,      \* the oracle's last word on whether it has an alternative
    retry,    \* the last cut had no effect
    best,     \* point of the last improvement, NoPoint before the first
    found,    \* feas: the oracle accepted the point
    status,   \* what will be reported
    calls,    \* how often the oracle has been asked
    log       \* history of this run, for the properties only

vars == <<mode, maxit, pc, centre, value, value0, pending, alt, retry, best, found, status, calls, log>>

\* as it is reported when the limit, or the supply of alternatives, runs out
DefaultStatus(m) == IF m = "q" THEN "nosoln" ELSE "success"

Asks == SelectSeq(log, LAMBDA e : e.e = "ask")
Applies == SelectSeq(log, LAMBDA e : e.e = "apply")

Init ==
    /\ mode = "feas" /\ maxit = 0 /\ pc = "idle" /\ centre = 0 /\ value = 0 /\ value0 = 0
    /\ pending = NoPoint /\ alt = FALSE /\ retry = FALSE /\ best = NoPoint /\ found = FALSE
    /\ status = "success" /\ calls = 0 /\ log = <<>>

Begin(m, k, x, v) ==
    /\ pc = "idle"
    /\ mode' = m /\ maxit' = k /\ centre' = x /\ value' = v /\ value0' = v
    /\ pc' = "ask" /\ pending' = NoPoint /\ alt' = FALSE /\ retry' = FALSE
    /\ best' = NoPoint /\ found' = FALSE /\ status' = DefaultStatus(m)
    /\ calls' = 0
    /\ log' = <<[e |-> "begin", x |-> x, v |-> v]>>

\* The driver asks the oracle about x with best value v (and the retry flag r).
\* a: its answer, [cut, v, x0, shrunk, alt]; cut is NoPoint for "accepted".
Ask(x, v, r, a) ==
    /\ pc = "ask"
    /\ calls < maxit /\ calls' = calls + 1
    /\ x = centre
    /\ mode # "feas" => v = value
    /\ mode = "q" => r = retry
    /\ a.cut = NoPoint => mode = "feas"
    /\ value' = IF mode = "feas" THEN value ELSE a.v
    /\ best' = IF mode # "feas" /\ a.shrunk THEN (IF mode = "dc" THEN x ELSE a.x0) ELSE best
    /\ alt' = a.alt
    /\ found' = (a.cut = NoPoint)
    /\ pending' = a.cut
    /\ pc' = IF a.cut = NoPoint THEN "ready" ELSE "apply"
    /\ log' = Append(log, [e |-> "ask", x |-> x, v |-> v, r |-> r, a |-> a])
    /\ UNCHANGED <<mode, maxit, centre, value0, retry, status>>

\* The driver hands the pending cut to the space, which answers with a verdict
\* and its size (small: below the tolerance), and now has its centre at x.
Apply(c, verdict, small, x) ==
    /\ pc = "apply"
    /\ c = pending
    /\ verdict # "success" => x = centre
    /\ centre' = x
    /\ retry' = (verdict = "noeffect")
    /\ LET stop ==
             IF mode = "q"
             THEN IF verdict = "noeffect" /\ ~alt THEN "nosoln"
                  ELSE IF verdict = "nosoln" THEN "nosoln"
                  ELSE IF small THEN "smallenough" ELSE "go on"
             ELSE IF verdict # "success" THEN verdict
                  ELSE IF small THEN "smallenough" ELSE "go on"
       IN  /\ pc' = IF stop = "go on" THEN "ask" ELSE "ready"
           /\ status' = IF stop = "go on" THEN status ELSE stop
    /\ pending' = NoPoint
    /\ log' = Append(log, [e |-> "apply", c |-> c, verdict |-> verdict, small |-> small, x |-> x])
    /\ UNCHANGED <<mode, maxit, value, value0, alt, best, found, calls>>

LimitReached == pc = "ask" /\ calls + 1 >= maxit

\* what the driver may report, [feasible, iters, status, best, value]
ResultOK(r) ==
    /\ r.feasible = IF mode = "feas" THEN found ELSE value # value0
    /\ r.status = status
    /\ IF pc = "ready" THEN r.iters = calls ELSE r.iters \in {calls, calls + 1}
    /\ r.iters <= maxit \/ r.iters = 1       \* never more than the limit (one for a limit of 0)
    /\ mode # "feas" => r.value = value
    /\ mode # "feas" /\ best # NoPoint => r.best = best
    /\ mode = "feas" => r.best = centre       \* the space is left at its last centre

Finish(r) ==
    /\ pc = "ready" \/ LimitReached
    /\ ResultOK(r)
    /\ pc' = "idle"
    /\ log' = Append(log, [e |-> "finish", r |-> r])
    /\ UNCHANGED <<mode, maxit, centre, value, value0, pending, alt, retry, best, found, status, calls>>

-----------------------------------------------------------------------------
(* The properties, on the history alone.                                   *)

Last(s) == s[Len(s)]
Finished == log # <<>> /\ Last(log).e = "finish"
Res == Last(log).r

\* every call happens at most maxit times, and calls alternate
Bounded ==
    /\ Len(Asks) <= maxit
    /\ Len(Applies) \in {Len(Asks) - 1, Len(Asks)} \cup {0}

\* every query is about the current centre with the current best value
AsksCurrent ==
    \A i \in DOMAIN log : log[i].e = "ask" =>
        /\ log[i].x = log[i-1].x
        /\ log[i-1].e \in {"begin", "apply"}
        /\ mode # "feas" =>
             log[i].v = IF i = 2 THEN log[1].v ELSE log[i-2].a.v

\* every cut is applied exactly once, right after it was received
CutsAppliedOnce ==
    \A i \in DOMAIN log : log[i].e = "apply" =>
        /\ log[i-1].e = "ask"
        /\ log[i].c = log[i-1].a.cut

\* nothing happens after the space said that it cannot or need not go on
StopsInTime ==
    \A i \in DOMAIN log : log[i].e = "apply" /\ i < Len(log) /\ log[i+1].e = "ask" =>
        /\ ~log[i].small
        /\ log[i].verdict # "nosoln"
        /\ mode # "q" => log[i].verdict = "success"
        /\ mode = "q" /\ log[i].verdict = "noeffect" => log[i-1].a.alt

FeasReported ==
    Finished /\ mode = "feas" =>
        /\ Res.feasible <=> \E i \in DOMAIN log : log[i].e = "ask" /\ log[i].a.cut = NoPoint
        /\ Res.feasible => log[Len(log)-1].e = "ask" /\ Res.best = log[Len(log)-1].x

\* the point returned is the one of the latest improvement, the value is the
\* one the oracle left there (oracles leave the value alone otherwise)
BestReported ==
    Finished /\ mode # "feas" =>
        LET imp == SelectSeq(log, LAMBDA e : e.e = "ask" /\ e.a.shrunk)
        IN  /\ imp # <<>> => Res.best = IF mode = "dc" THEN Last(imp).x ELSE Last(imp).a.x0
            /\ Asks # <<>> => Res.value = Last(Asks).a.v
            /\ Res.feasible <=> Res.value # log[1].v

\* q: the alternative is asked for exactly after an ineffective cut
RetriesRight ==
    mode = "q" =>
        \A i \in DOMAIN log : log[i].e = "ask" =>
            (log[i].r <=> log[i-1].e = "apply" /\ log[i-1].verdict = "noeffect")

\* the status tells why it stopped
StatusRight ==
    Finished =>
        LET p == log[Len(log)-1] IN
        /\ p.e = "apply" /\ p.verdict # "success" /\ mode # "q" => Res.status = p.verdict
        /\ p.e = "apply" /\ p.verdict = "nosoln" => Res.status = "nosoln"
        /\ p.e = "apply" /\ p.verdict = "success" /\ p.small => Res.status = "smallenough"
        /\ Res.status = "smallenough" => p.e = "apply" /\ p.small
        /\ p.e # "apply" \/ (p.verdict = "success" /\ ~p.small) \/ (mode = "q" /\ p.verdict = "noeffect" /\ ~p.small)
             => Res.status = DefaultStatus(mode)
=============================================================================
