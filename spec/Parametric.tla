----------------------------- MODULE Parametric -----------------------------
(***************************************************************************)
(* Parametric search on a graph: while some cycle is negative at the       *)
(* parameter r, ask for the parameter at which that cycle cancels; take it *)
(* when it is lower, end otherwise.  The weight of edge i at r is          *)
(* cost[i] - r * time[i].                                                  *)
(***************************************************************************)
EXTENDS Graph

VARIABLES n, edges, cost, time,
    r0,             \* where the search started
    r, best,        \* the parameter, and the cycle it belongs to (<<>>: none yet)
    count, limit,   \* cycles asked about
    pc              \* "idle", "search", "ended"

pvars == <<n, edges, cost, time, r0, r, best, count, limit, pc>>

At(ww, tt, x) == [i \in DOMAIN ww |-> RSub(ww[i], RMul(x, tt[i]))]
RatioOf(c) == RDiv(Total(cost, c), Total(time, c))

PInit == n = 1 /\ edges = <<>> /\ cost = <<>> /\ time = <<>> /\ r0 = 0 /\ r = 0 /\ best = <<>>
         /\ count = 0 /\ limit = 0 /\ pc = "idle"

Begin(nn, ee, cc, tt, x, lim) ==
    /\ n' = nn /\ edges' = ee /\ cost' = cc /\ time' = tt /\ r0' = x /\ r' = x /\ best' = <<>>
    /\ count' = 0 /\ limit' = lim /\ pc' = "search"

\* a cycle that is negative at r, and where it cancels
CanOffer(c) == SimpleCycle(edges, c) /\ RLt(Total(At(cost, time, r), c), 0)
Offer(c, x) ==
    /\ pc = "search" /\ count < limit /\ CanOffer(c)
    /\ count' = count + 1
    /\ IF RLt(x, r) THEN r' = x /\ best' = c /\ pc' = "search"
       ELSE UNCHANGED <<r, best>> /\ pc' = "ended"
    /\ UNCHANGED <<n, edges, cost, time, r0, limit>>
\* nothing left to ask about, or no asking left
Stop ==
    /\ pc = "search" /\ (count = limit \/ NoNegativeCycle(n, edges, At(cost, time, r)))
    /\ pc' = "ended" /\ UNCHANGED <<n, edges, cost, time, r0, r, best, count, limit>>

-----------------------------------------------------------------------------
NeverIncreases == RLe(r, r0) /\ (best # <<>> => RLt(r, r0)) /\ (best = <<>> => REq(r, r0))

\* what the minimum-ratio solver promises of its result x, c from start x0
Optimal(nn, ee, cc, tt, x0, x, c, slack) ==
    IF c = <<>> THEN REq(x, x0) /\ NoNegativeCycle(nn, ee, At(cc, tt, RSub(x, slack)))
    ELSE /\ SimpleCycle(ee, c)
         /\ RLe(RAbs(RSub(RMul(x, Total(tt, c)), Total(cc, c))), RMul(slack, Total(tt, c)))  \* attained
         /\ RLt(x, x0)
         /\ NoNegativeCycle(nn, ee, At(cc, tt, RSub(x, slack)))           \* and nothing is lower
=============================================================================
