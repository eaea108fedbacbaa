------------------------------- MODULE Profit -------------------------------
(***************************************************************************)
(* The profit oracles.  In log scale, y = log x, the profit                *)
(*     W(y) = pA exp(a.y) - v.exp(y),    y_1 <= log k                      *)
(* is at least t exactly where                                             *)
(*     phi(y) = log(t + v.exp(y)) - log(pA) - a.y <= 0,                    *)
(* and phi is convex for t >= 0: its tangent is the cut.  In the robust    *)
(* form the data lie in a box and the profit counted is the worst; in the  *)
(* discrete form the oracle looks at a nearby integer point instead, and a *)
(* second time only when asked to retry.                                   *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

VARIABLES
    job,     \* [form, p, A, k, a, v, e, e3]: form "plain", "robust", "discrete"
    best,    \* best profit so far
    at,      \* the point asked about
    yd,      \* the integer point looked at (in log scale)
    turn,    \* "ask" or "retry": may the next question be a retry?
    said     \* [kind, g, f]: "none", "resource", "better", "worse"
pvars == <<job, best, at, yd, turn, said>>

B == 160
Exp(y) == RRound(RExp(y), B)
Log(y) == RRound(RLog(y), B)
X(y) == [i \in 1..2 |-> Exp(y[i])]
\* the data at their worst
P1(j) == RSub(j.p, j.e3)
K1(j) == RSub(j.k, j.e3)
V1(j) == [i \in 1..2 |-> RAdd(j.v[i], j.e3)]
Corners(j) == IF j.form = "robust" THEN [k \in 1..4 |-> <<RAdd(j.a[1], RMul(IF k <= 2 THEN 1 ELSE 0-1, j.e[1])),
                                                          RAdd(j.a[2], RMul(IF k % 2 = 0 THEN 1 ELSE 0-1, j.e[2]))>>]
              ELSE <<j.a>>
WorstA(j, y) == LET c == Corners(j) IN c[CHOOSE i \in DOMAIN c : \A k \in DOMAIN c : RLe(VDot(c[i], y), VDot(c[k], y))]
Revenue(j, y) == RRound(RMul(RMul(P1(j), j.A), Exp(VDot(WorstA(j, y), y))), B)
Cost(j, y) == VDot(V1(j), X(y))
W(j, y) == RSub(Revenue(j, y), Cost(j, y))
Room(j, y) == RSub(Log(K1(j)), y[1])            \* not negative: admissible
Admissible(j, y) == RLe(0, Room(j, y))
\* the tangent of phi at y for the level t
Tangent(j, y, t) == LET te == RAdd(t, Cost(j, y)) x == X(y) a == WorstA(j, y)
                    IN  [i \in 1..2 |-> RRound(RSub(RDiv(RMul(V1(j)[i], x[i]), te), a[i]), B)]
Phi(j, y, t) == RSub(Log(RAdd(t, Cost(j, y))), Log(Revenue(j, y)))
Ahead(g, y, z) == VDot(g, [i \in 1..2 |-> RSub(z[i], y[i])])

PInit == job = [form |-> "none"] /\ best = 0 /\ at = <<0, 0>> /\ yd = <<0, 0>> /\ turn = "ask" /\ said = [kind |-> "none", g |-> <<0, 0>>, f |-> 0]
PBegin(j, t) == job' = j /\ best' = t /\ at' = <<0, 0>> /\ yd' = <<0, 0>> /\ turn' = "ask" /\ said' = [kind |-> "none", g |-> <<0, 0>>, f |-> 0]

\* what is found at z, said as a cut at y
Look(z, y) ==
    IF ~Admissible(job, z) THEN said' = [kind |-> "resource", g |-> <<1, 0>>, f |-> RAdd(RNeg(Room(job, z)), Ahead(<<1, 0>>, z, y))] /\ UNCHANGED best
    ELSE LET w == W(job, z)
         IN  IF RLt(best, w)
             THEN LET g == Tangent(job, z, w)
                  IN  best' = w /\ said' = [kind |-> "better", g |-> g, f |-> Ahead(g, z, y)]
             ELSE LET g == Tangent(job, z, best)
                  IN  said' = [kind |-> "worse", g |-> g, f |-> RAdd(Phi(job, z, best), Ahead(g, z, y))] /\ UNCHANGED best
PAsk(y) == /\ job.form \in {"plain", "robust"}
           /\ at' = y /\ Look(y, y) /\ UNCHANGED <<job, yd, turn>>
\* z: an integer point chosen for y
PAskInteger(y, z) == /\ job.form = "discrete"
                     /\ at' = y /\ yd' = z /\ Look(z, y) /\ turn' = "retry" /\ UNCHANGED job
PRetry(y) == /\ job.form = "discrete" /\ turn = "retry"
             /\ at' = y /\ Look(yd, y) /\ turn' = "ask" /\ UNCHANGED <<job, yd>>
-----------------------------------------------------------------------------
CONSTANT Grid       \* sequence of points on which the design runs try the cuts
Tiny == RPow10(0-30)
CutsKeepBetter == said.kind # "none" =>
    \A k \in DOMAIN Grid : LET z == Grid[k] IN (Admissible(job, z) /\ RLe(RAdd(best, Tiny), W(job, z))) => RLe(RAdd(said.f, Ahead(said.g, at, z)), Tiny)
BestIsAttained == said.kind = "better" =>
    LET z == IF job.form = "discrete" THEN yd ELSE at IN Admissible(job, z) /\ REq(best, W(job, z))
\* the robust profit is one that no data in the box undercuts
WorstIsWorst == said.kind = "better" => \A s, t, u, w \in {0-1, 1} :
    LET j == [job EXCEPT !.form = "plain", !.p = RAdd(@, RMul(u, job.e3)), !.v = <<RAdd(@[1], RMul(w, job.e3)), RAdd(@[2], RMul(w, job.e3))>>,
                         !.a = <<RAdd(@[1], RMul(s, job.e[1])), RAdd(@[2], RMul(t, job.e[2]))>>, !.e3 = 0]
    IN  job.form = "robust" => RLe(RSub(best, Tiny), W(j, at))
=============================================================================
