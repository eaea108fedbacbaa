------------------------- MODULE CuttingPlaneTrace -------------------------
(* Recorded runs of the real drivers, as behaviours of CuttingPlane. *)
EXTENDS CuttingPlane, TraceBase, Rat

ASSUME SelfTest

TInit == Init /\ l = 1

VARIABLE tol

TBegin ==
    /\ Is("Begin") /\ Begin(ev.mode, ev.maxit, ev.x, ev.v) /\ tol' = ev.tol

TAsk ==
    /\ Is("Ask")
    /\ Chk("asks-current-centre", ev.x = centre)
    /\ mode # "feas" => Chk("asks-current-value", ev.v = value)
    /\ mode = "q" => Chk("retry-exactly-after-ineffective-cut", ev.r = retry)
    /\ Act("asks-within-limit-and-turn",
           Ask(ev.x, ev.v, ev.r, [cut |-> ev.cut, v |-> ev.nv, x0 |-> ev.x0, shrunk |-> ev.shrunk, alt |-> ev.alt]))
    /\ UNCHANGED tol

TApply ==
    /\ Is("Apply")
    /\ Act("applies-the-pending-cut", Apply(ev.c, ev.verdict, RLt(ev.tsq, tol), ev.x))
    /\ UNCHANGED tol

TFinish ==
    /\ Is("Finish")
    /\ Chk("finishes-only-when-due", pc = "ready" \/ LimitReached)
    /\ Act("result", Finish([feasible |-> ev.feasible, iters |-> ev.iters, status |-> ev.status,
                             best |-> ev.best, value |-> IF mode = "feas" THEN value ELSE ev.v]))
    /\ UNCHANGED tol

\* the next run starts from scratch; its log holds this run only
TNext == TBegin \/ TAsk \/ TApply \/ TFinish
TView == l
TSpec == TInit /\ tol = 0 /\ [][TNext]_<<vars, l, tol>>

\* the history properties are evaluated when a run is over
AtEnd == Finished => /\ Bounded /\ AsksCurrent /\ CutsAppliedOnce /\ StopsInTime
                     /\ FeasReported /\ BestReported /\ RetriesRight /\ StatusRight
=============================================================================
