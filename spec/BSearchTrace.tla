---------------------------- MODULE BSearchTrace ----------------------------
(* Recorded binary searches, as behaviours of BSearch. *)
EXTENDS BSearch, TraceBase

ASSUME SelfTest
VARIABLE thr     \* "none" when the answers were not those of a threshold

TInit == Init /\ thr = "none" /\ l = 1
TNext ==
    \/ /\ Is("Begin") /\ Act("bracket", Begin(ev.kind, ev.lo, ev.hi, ev.tol, ev.maxit)) /\ thr' = ev.thr
    \/ /\ Is("Ask") /\ UNCHANGED thr
       /\ Chk("asks-within-limit", calls < maxit)
       /\ Chk("stops-at-tolerance", ~BelowTol \/ Near)
       /\ Act("asks-the-middle-of-the-bracket", Ask(ev.t, ev.yes))
    \/ /\ Is("Finish") /\ UNCHANGED thr
       /\ Act("result", Finish([feasible |-> ev.feasible, iters |-> ev.iters, status |-> ev.status,
                                lo |-> IF ev.lo = "?" THEN lo ELSE ev.lo, hi |-> IF ev.hi = "?" THEN hi ELSE ev.hi]))
TView == l
TSpec == TInit /\ [][TNext]_<<vars, thr, l>>
TProps == /\ LimitKept /\ InsideOnly
          /\ pc # "idle" => Halves
          /\ pc # "idle" /\ thr # "none" => Bracketed(thr) /\ ExactForIntegers(thr)
=============================================================================
