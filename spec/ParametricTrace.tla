-------------------------- MODULE ParametricTrace --------------------------
(* Recorded parametric searches: cycle by cycle where the candidates were
   scripted, and whole solves of the minimum-ratio solver. *)
EXTENDS Parametric, TraceBase

ASSUME SelfTest
VARIABLE exact
tvars == <<pvars, exact, l>>

Grown(e) == [i \in DOMAIN e |-> [u |-> e[i][1], v |-> e[i][2]]]
Slack == IF exact THEN 0 ELSE RMul(RPow10(0-9), RMax(1, RMaxSeq([i \in DOMAIN cost |-> RAbs(cost[i])])))
\* a candidate within rounding of r may be taken either way
TInit == PInit /\ exact = TRUE /\ l = 1
TNext ==
    \/ /\ Is("Begin") /\ n' = ev.n /\ edges' = Grown(ev.edges) /\ cost' = <<>> /\ time' = <<>> /\ r0' = 0 /\ r' = 0
       /\ best' = <<>> /\ count' = 0 /\ limit' = 0 /\ pc' = "idle" /\ UNCHANGED exact
    \/ /\ Is("Param") /\ pc # "search" /\ exact' = ev.exact
       /\ Act("begin", Begin(n, edges, ev.cost, ev.time, ev.r0, ev.limit))
    \/ /\ Is("Offer")
       /\ Chk("asks-about-negative-cycles-only", CanOffer(ev.cycle) \/ (~exact /\ SimpleCycle(edges, ev.cycle)
                 /\ RLt(Total(At(cost, time, RAdd(r, Slack)), ev.cycle), 0)))
       /\ Chk("asks-within-its-limit", count < limit)
       /\ Chk("asks-only-while-improving", pc = "search")
       /\ count' = count + 1
       /\ IF RLt(ev.x, r) THEN r' = ev.x /\ best' = ev.cycle /\ pc' = "search"
          ELSE UNCHANGED <<r, best>> /\ pc' = "ended"
       /\ UNCHANGED <<n, edges, cost, time, r0, limit, exact>>
    \/ /\ Is("Result") /\ pc \in {"search", "ended"}
       /\ Chk("ends-when-nothing-is-left", pc = "ended" \/ count = limit
                 \/ NoNegativeCycle(n, edges, At(cost, time, RSub(r, Slack))))
       /\ Chk("reports-the-last-value-taken", REq(ev.r, r))
       /\ Chk("reports-its-cycle", ev.cycle = best)
       /\ pc' = "idle" /\ UNCHANGED <<n, edges, cost, time, r0, r, best, count, limit, exact>>
    \/ /\ Is("Solve") /\ pc # "search" /\ exact' = ev.exact
       /\ n' = n /\ edges' = edges /\ cost' = ev.cost /\ time' = ev.time /\ r0' = ev.r0 /\ r' = ev.r0 /\ best' = <<>>
       /\ count' = 0 /\ limit' = ev.limit /\ pc' = "solve"
    \/ /\ Is("Result") /\ pc = "solve"
       /\ Chk("cycle-attains-the-ratio", ev.cycle # <<>> =>
                 SimpleCycle(edges, ev.cycle) /\ RLe(RAbs(RSub(ev.r, RatioOf(ev.cycle))), Slack))
       /\ Chk("never-increases", RLe(ev.r, r0) /\ (ev.cycle = <<>> => REq(ev.r, r0)) /\ (ev.cycle # <<>> => RLt(ev.r, r0)))
       /\ Chk("no-cycle-is-better", limit > 20 => NoNegativeCycle(n, edges, At(cost, time, RSub(ev.r, Slack))))
       /\ Chk("optimum", limit > 20 => Optimal(n, edges, cost, time, r0, ev.r, ev.cycle, Slack))
       /\ pc' = "idle" /\ UNCHANGED <<n, edges, cost, time, r0, r, best, count, limit, exact>>
TView == l
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
