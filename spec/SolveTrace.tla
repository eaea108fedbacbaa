----------------------------- MODULE SolveTrace -----------------------------
(***************************************************************************)
(* Recorded solves.  Every question of a solve must be answered as the     *)
(* problem asks, and at its end nothing that came out of another search    *)
(* (ys), lies in the region the solve started from and is acceptable with  *)
(* the room that a search of this accuracy cannot see, may be clearly      *)
(* better.  No half-space given up on the way may hold a point that was    *)
(* better then, such as those that end up best.                            *)
(***************************************************************************)
EXTENDS Solve, TraceBase

ASSUME SelfTest
VARIABLES reach,      \* the region the search starts from
          first       \* where the solve begins in the trace
tvars == <<svars, reach, first, l>>
Tiny == RPow10(0-9)
ProblemOf(e) ==
    CASE e.form \in {"ratio", "scale"} -> [form |-> e.form, n |-> e.n, edges |-> [i \in DOMAIN e.edges |-> [u |-> e.edges[i][1], v |-> e.edges[i][2]]],
                                           cost |-> e.cost, time |-> e.time]
      [] e.form \in {"profit", "robust"} -> [form |-> e.form, p |-> e.p, A |-> e.A, k |-> e.k, a |-> e.a, v |-> e.v, e |-> e.box, e3 |-> e.e3]
      [] e.form = "filter" -> [form |-> e.form, pass |-> e.pass, stop |-> e.stop, other |-> e.other, lower |-> e.lower, upper |-> e.upper]
      [] OTHER -> [form |-> e.form, blocks |-> e.blocks, c |-> e.c]
ReachOf(e) == IF e.form = "ratio" THEN [lo |-> e.lo, hi |-> e.hi] ELSE [x0 |-> e.x0, alpha |-> e.alpha]
Dist2(x, y) == LET d == VSub(x, y) IN VDot(d, d)
Within(y, x0) == IF prob.form = "ratio" THEN RLe(reach.lo, y[1]) /\ RLe(y[1], reach.hi) ELSE RLe(Dist2(y, x0), reach.alpha)
InReach(y) == Within(y, IF prob.form = "ratio" THEN <<>> ELSE reach.x0)
\* rounding, in the measure of the data
Size == CASE prob.form \in {"ratio", "scale"} -> RAdd(1, RMaxSeq([i \in DOMAIN prob.cost |-> RAdd(RAbs(prob.cost[i]), prob.time[i])]))
          [] OTHER -> 10
Blur == RMul(Size, Tiny)
\* an answer, as recorded, and a point that was better at that time
Slack(a, z) == LET d == VSub(z, a.x) IN RMul(Tiny, RAdd(RAbs(a.f), RAdd(1, RSumSeq([k \in DOMAIN d |-> RAbs(RMul(a.g[k], d[k]))]))))
Holds(a, z) == LET d == VDot(a.g, VSub(z, a.x)) s == Slack(a, z) IN
    RLe(RAdd(a.f, d), s) /\ \A k \in DOMAIN a.far : RLe(RNeg(RAdd(s, RMul(Tiny, RAbs(a.far[k])))), RAdd(a.far[k], d))
NothingGivenUp(zs) ==
    LET good == SelectSeq(zs, LAMBDA z : Acceptable(prob, z, 0))
    IN  \A q \in DOMAIN good : LET z == good[q] v == Value(prob, z) IN
            \A k \in (first + 1)..(l - 1) : LET a == Trace[k] IN
                (Betters(prob, v, RNum(a.t1)) /\ Beats(prob, z, a.t1, 0)) => Holds(a, z)
\* the final width is at most 1e-4, and no less than rounding makes of a
\* region that has become long and thin
Acc == RAdd("0.0003", IF prob.form = "ratio" THEN 0 ELSE RMul(RPow10(0-5), RSqrt(reach.alpha)))
ClearlyBetter(y, t) == Acceptable(prob, y, Acc) /\ Beats(prob, y, t, Acc)
TInit == SInit /\ reach = [lo |-> 0, hi |-> 0] /\ first = 1 /\ l = 1
TNext ==
    \/ Is("Begin") /\ Act("begin", SBegin(ProblemOf(ev), RNum(ev.from))) /\ reach' = ReachOf(ev) /\ first' = l
    \/ /\ Is("Ask") /\ UNCHANGED <<reach, first>>
       /\ Chk("asks-about-numbers", VIsNum(ev.x) /\ RIsNum(ev.t1) /\ VIsNum(ev.g) /\ RIsNum(ev.f) /\ VIsNum(ev.far))
       /\ Chk("asks-with-the-best-value", REq(ev.t0, best))
       /\ IF ev.shrunk
          THEN /\ Chk("accepts-acceptable", Acceptable(prob, ev.x, RNeg(Blur)))
               /\ Chk("best-is-attained", RClose(ev.t1, Value(prob, ev.x), Tiny))
               /\ Chk("no-worse", ~Betters(prob, best, RNum(ev.t1)))
               /\ Act("improves", Improves(ev.x, RNum(ev.t1)))
          ELSE /\ Chk("value-kept", REq(ev.t1, best))
               /\ Chk("refuses-others", ~(Acceptable(prob, ev.x, Blur) /\ Beats(prob, ev.x, best, Blur)))
               /\ UNCHANGED svars
    \/ /\ Is("Finish") /\ UNCHANGED <<svars, reach, first>>
       /\ Chk("value-is-the-best", REq(ev.t, best))
       /\ Chk("found-if-bettered", ev.ok <=> ~REq(best, init))
       /\ ev.ok => Chk("point-is-the-best", bestx # <<>> /\ Len(ev.x) = Len(bestx[1]) /\ \A k \in DOMAIN ev.x : REq(ev.x[k], bestx[1][k]))
       /\ Chk("nothing-better-given-up", NothingGivenUp(IF ev.ok THEN <<ev.x>> \o ev.ys ELSE ev.ys))
       /\ ~ev.limit => \A k \in DOMAIN ev.ys : LET y == ev.ys[k] IN
            Chk("nothing-clearly-better", ~(InReach(y) /\ ClearlyBetter(y, best)))
    \/ /\ Is("Try") /\ UNCHANGED <<reach, first>>
       /\ Chk("about-the-last-point", bestx = <<>> \/ \A k \in DOMAIN ev.from : REq(ev.from[k], bestx[1][k]))
       /\ IF ev.ok
          THEN /\ Chk("reaches-level", MPosDef(Gap(prob.blocks[1], ev.x, RAdd(ev.t, RPow10(0-7)))))
               /\ Act("improves", Improves(ev.x, RNum(ev.t)))
          ELSE /\ Chk("level-out-of-reach", \A k \in DOMAIN ev.ys : LET y == ev.ys[k] IN ~(Within(y, ev.from) /\ Beats(prob, y, ev.t, Acc)))
               /\ UNCHANGED svars
    \/ /\ Is("Bracket") /\ UNCHANGED <<svars, reach, first>>
       /\ Chk("upper-end-is-the-best", REq(ev.hi, best))
       /\ Chk("narrow", RLe(RSub(ev.hi, ev.lo), RMul("2.1", RPow10(0-5))))
       /\ Chk("found-if-bettered", ev.ok <=> ~REq(best, init))
TView == l
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
