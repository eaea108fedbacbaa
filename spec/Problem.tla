------------------------------- MODULE Problem -------------------------------
(* Small convex problems: linear constraints, balls and slabs, and a linear   *)
(* plus quadratic objective.                                                  *)
EXTENDS Rat

\* [t |-> "lin", a, hi]: a.x <= hi;  "slab": lo <= a.x <= hi;  "ball": |x-a|^2 <= hi
Holds(c, x) ==
    CASE c.t = "lin" -> RLe(VDot(c.a, x), c.hi)
      [] c.t = "slab" -> RLe(VDot(c.a, x), c.hi) /\ RLe(c.lo, VDot(c.a, x))
      [] c.t = "ball" -> LET d == VSub(x, c.a) IN RLe(VDot(d, d), c.hi)
Feasible(cons, x) == \A i \in DOMAIN cons : Holds(cons[i], x)
\* c.x + q |x - p|^2
Objective(o, x) == LET d == VSub(x, o.p) IN RAdd(VDot(o.c, x), RMul(o.q, VDot(d, d)))

Lets(x, g, near, p) == RLe(RAdd(VDot(g, VSub(p, x)), near), 0)
Within(x, P, p, e) == LET d == VSub(p, x) IN RLe(VDot(d, MSolve(P, d)), RAdd(1, e))
=============================================================================
