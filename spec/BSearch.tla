------------------------------ MODULE BSearch ------------------------------
(***************************************************************************)
(* Binary search for the threshold of a monotone predicate, on brackets of *)
(* floating-point ("real") or integer ("int") numbers.  The predicate is   *)
(* the environment.  Numbers are rationals (BigRat).                       *)
(***************************************************************************)
EXTENDS Rat

VARIABLES
    kind,            \* "real" | "int"
    lo, hi,          \* the bracket
    lo0, hi0,        \* the bracket at the start
    tol, maxit,
    calls,           \* questions asked so far
    pc,              \* "idle" | "run" | "done"
    hist             \* the questions and answers, for the properties only

vars == <<kind, lo, hi, lo0, hi0, tol, maxit, calls, pc, hist>>

Half == LET h == RDiv(RSub(hi, lo), 2) IN IF kind = "int" THEN RFloor(h) ELSE h
\* rounding of floating-point end points
Slack == IF kind = "int" THEN 0 ELSE RMul(RPow2(-50), RMax(RAbs(lo), RAbs(hi)))
\* half the bracket is below the tolerance; where rounding decides, either may be
Near == kind = "real" /\ RWithin(Half, tol, RPow2(-40), RMax(Half, tol))
BelowTol == RLt(Half, tol)

Init ==
    /\ kind = "real" /\ lo = 0 /\ hi = 0 /\ lo0 = 0 /\ hi0 = 0 /\ tol = 1 /\ maxit = 0
    /\ calls = 0 /\ pc = "idle" /\ hist = <<>>

Begin(k, a, b, e, m) ==
    /\ RLe(a, b)
    /\ kind' = k /\ lo' = a /\ hi' = b /\ lo0' = a /\ hi0' = b /\ tol' = e /\ maxit' = m
    /\ calls' = 0 /\ pc' = "run" /\ hist' = <<>>

\* the predicate is asked about t and answers yes or no
Ask(t, yes) ==
    /\ pc = "run"
    /\ calls < maxit
    /\ ~BelowTol \/ Near
    /\ RLe(lo, t) /\ RLe(t, hi)
    /\ RLe(RSub(t, lo), RAdd(Half, Slack))
    /\ RLe(RSub(hi, t), RAdd(IF kind = "int" THEN RAdd(Half, 1) ELSE Half, Slack))
    /\ hi' = IF yes THEN t ELSE hi
    /\ lo' = IF yes THEN lo ELSE t
    /\ calls' = calls + 1
    /\ hist' = Append(hist, [t |-> t, yes |-> yes])
    /\ UNCHANGED <<kind, lo0, hi0, tol, maxit, pc>>

\* what may be reported: [feasible, iters, status, lo, hi]
Finish(r) ==
    /\ pc = "run"
    /\ \/ (BelowTol \/ Near) /\ r.status = "smallenough"
       \/ calls = maxit /\ r.status = "success"
    /\ REq(r.lo, lo) /\ REq(r.hi, hi)
    /\ r.feasible = ~REq(hi, hi0)
    /\ r.iters \in {calls, calls + 1}
    /\ pc' = "done"
    /\ UNCHANGED <<kind, lo, hi, lo0, hi0, tol, maxit, calls, hist>>

-----------------------------------------------------------------------------
(* Properties for a monotone predicate with threshold thr: yes iff t >= thr *)

Bracketed(thr) ==
    /\ REq(hi, hi0) \/ RLe(thr, hi)
    /\ REq(lo, lo0) \/ RLt(lo, thr)
    /\ RLe(lo0, lo) /\ RLe(lo, hi) /\ RLe(hi, hi0)
\* each answer at least halves the bracket, up to rounding
Halves == kind = "real" =>
    RLe(RSub(hi, lo), RAdd(RDiv(RSub(hi0, lo0), RPow2(calls)), RMul(calls, RMul(4, RMul(RPow2(-50), RMax(RAbs(lo0), RAbs(hi0)))))))
InsideOnly == \A i \in DOMAIN hist : RLe(lo0, hist[i].t) /\ RLe(hist[i].t, hi0)
ExactForIntegers(thr) ==
    (pc = "done" /\ kind = "int" /\ calls < maxit /\ RLe(tol, 1)) =>
        IF RLe(thr, RSub(hi0, 1)) THEN RLe(RSub(hi, lo), 1) /\ (RLe(lo0, RSub(thr, 1)) => REq(hi, thr))
        ELSE REq(hi, hi0)
LimitKept == calls <= maxit
=============================================================================
