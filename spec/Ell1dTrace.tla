----------------------------- MODULE Ell1dTrace -----------------------------
(* Recorded histories of ell1d; centre and size are observed after each step. *)
EXTENDS Ell1d, TraceBase

ASSUME SelfTest
VARIABLE steps
Scale == RMax(1, RMax(RAbs(lo0), RAbs(hi0)))
\* rounding of every step so far, absolute
Err == RMul(steps + 1, RMul(RPow2(-50), RMax(RAbs(lo0), RAbs(hi0))))
Seen(e) == /\ Chk("centre", RLe(RAbs(RSub(ev.x, Centre')), e))
           /\ Chk("half-width", RLe(RAbs(RSub(ev.r, Radius')), e))
CutEv ==
    LET tau == RMul(RAbs(ev.g), Radius)
    IN  /\ Chk("verdict", ev.verdict \in Verdict(ev.g, ev.beta, ev.x0, IF ev.exact THEN 0 ELSE RMul(RMul(4, Err), RAbs(ev.g))))
        /\ Chk("size-is-squared-half-width", RWithin(RSqrt(ev.tsq), tau, RPow10(-9), tau) \/ RWithin(RSqrt(ev.tsq), tau, RAbs(ev.g), RMul(4, Err)))
        /\ ICut(ev.g, ev.beta, ev.x0, ev.verdict)
        /\ IF ev.verdict = "success" THEN TRUE ELSE Chk("refused-cut-changes-nothing", ev.x = ev.x0 /\ ev.r = ev.r0)
TInit == IInit /\ steps = 0 /\ l = 1
TNext ==
    \/ /\ Is("Begin") /\ IBegin(ev.lo, ev.hi) /\ steps' = 0
       /\ Chk("centre", RLe(RAbs(RSub(ev.x, Centre')), RMul(RPow2(-50), RMax(RAbs(ev.lo), RAbs(ev.hi)))))
       /\ Chk("half-width", RLe(RAbs(RSub(ev.r, Radius')), RMul(RPow2(-50), RMax(RAbs(ev.lo), RAbs(ev.hi)))))
    \/ /\ Is("Cut") /\ steps' = steps + 1 /\ CutEv /\ Seen(RMul(4, Err))
    \/ /\ Is("Move") /\ steps' = steps + 1 /\ IMove(ev.to)
       /\ Chk("moved", ev.x = ev.to /\ ev.r = ev.r0)
    \/ /\ Is("Other") /\ UNCHANGED <<ivars, steps>>     \* a copy was cut
       /\ Chk("copies-are-independent", ev.x = ev.x0 /\ ev.r = ev.r0)
TView == l
TSpec == TInit /\ [][TNext]_<<ivars, steps, l>>
=============================================================================
