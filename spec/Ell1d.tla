------------------------------- MODULE Ell1d -------------------------------
(***************************************************************************)
(* The one-dimensional search space: an interval, cut by half lines        *)
(* g (x - xc) + beta <= 0, where xc is the midpoint.                       *)
(***************************************************************************)
EXTENDS Rat

VARIABLES
    lo, hi,      \* the interval
    lo0, hi0,    \* at the start
    taken        \* the bounds of the accepted cuts, [up, at]: x <= at or x >= at

ivars == <<lo, hi, lo0, hi0, taken>>

Bound(g, beta, xc) == RSub(xc, RDiv(beta, g))
\* the largest and the least value of g (x - xc) + beta over the interval
Most(g, beta, xc) == RAdd(beta, RMax(RMul(g, RSub(lo, xc)), RMul(g, RSub(hi, xc))))
Least(g, beta, xc) == RAdd(beta, RMin(RMul(g, RSub(lo, xc)), RMul(g, RSub(hi, xc))))

\* the verdicts allowed when values are known to within e
Verdict(g, beta, xc, e) ==
       (IF RLt(RNeg(e), Least(g, beta, xc)) THEN {"nosoln"} ELSE {})
  \cup (IF RLe(Most(g, beta, xc), e) THEN {"noeffect"} ELSE {})
  \cup (IF RLe(Least(g, beta, xc), e) /\ RLt(RNeg(e), Most(g, beta, xc)) THEN {"success"} ELSE {})

IInit == lo = 0 /\ hi = 0 /\ lo0 = 0 /\ hi0 = 0 /\ taken = <<>>
IBegin(a, b) == RLt(a, b) /\ lo' = a /\ hi' = b /\ lo0' = a /\ hi0' = b /\ taken' = <<>>

ICut(g, beta, xc, verdict) ==
    LET b == Bound(g, beta, xc)
    IN  IF verdict = "success"
        THEN /\ hi' = IF RSign(g) > 0 THEN RMin(hi, b) ELSE hi
             /\ lo' = IF RSign(g) < 0 THEN RMax(lo, b) ELSE lo
             /\ taken' = Append(taken, [up |-> RSign(g) > 0, at |-> b])
             /\ UNCHANGED <<lo0, hi0>>
        ELSE UNCHANGED ivars

\* moving the centre moves the interval
IMove(x) ==
    LET d == RSub(x, RDiv(RAdd(lo, hi), 2))
    IN  /\ lo' = RAdd(lo, d) /\ hi' = RAdd(hi, d)
        /\ lo0' = lo' /\ hi0' = hi' /\ taken' = <<>>

\* what can be observed: the midpoint and half the width
Centre == RDiv(RAdd(lo, hi), 2)
Radius == RDiv(RSub(hi, lo), 2)

-----------------------------------------------------------------------------
Satisfies(x) == /\ RLe(lo0, x) /\ RLe(x, hi0)
                /\ \A i \in DOMAIN taken : IF taken[i].up THEN RLe(x, taken[i].at) ELSE RLe(taken[i].at, x)
ExactlyTheCuts(x) == Satisfies(x) <=> RLe(lo, x) /\ RLe(x, hi)
NotEmpty == RLe(lo, hi)
=============================================================================
