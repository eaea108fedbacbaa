----------------------------- MODULE NetOracle -----------------------------
(***************************************************************************)
(* Network oracles.  The weight of every edge is an affine function of the *)
(* point asked about; a point is acceptable when no cycle is negative      *)
(* there.  Potentials live on between queries: they are part of the state, *)
(* and no answer may depend on them.                                       *)
(***************************************************************************)
EXTENDS Graph

VARIABLES n, edges,
    form,     \* "plain", "ratio", "scale"
    cost,     \* constant part of the weights
    slope,    \* plain: one vector per edge; ratio: the times
    lev,      \* plain: what one unit of the level takes from each weight
    level,    \* plain: the level last set
    pot       \* potentials

ovars == <<n, edges, form, cost, slope, lev, level, pot>>

Weight(i, x) ==
    CASE form = "plain" -> RSub(RAdd(cost[i], VDot(slope[i], x)), RMul(level, lev[i]))
      [] form = "ratio" -> RSub(cost[i], RMul(slope[i][1], x[1]))
      [] OTHER -> IF edges[i].u < edges[i].v THEN RSub(x[1], cost[i]) ELSE RSub(cost[i], x[2])
Weights(x) == [i \in DOMAIN edges |-> Weight(i, x)]
Acceptable(x) == NoNegativeCycle(n, edges, Weights(x))

\* the objective, and which way is better
Value(x) == IF form = "ratio" THEN x[1] ELSE RSub(x[1], x[2])
Better(a, b) == IF form = "ratio" THEN RLt(b, a) ELSE RLt(a, b)
NotWorse(a, b) == IF form = "ratio" THEN RLe(b, a) ELSE RLe(a, b)

\* g (y - x) + f
CutAt(g, f, x, y) == RAdd(VDot(g, VSub(y, x)), f)
\* the inequality of a cycle, as a cut at x
CycleCut(c, x) == LET e(j) == RSub(Total(Weights([x EXCEPT ![j] = RAdd(x[j], 1)]), c), Total(Weights(x), c))
                  IN  [g |-> [j \in DOMAIN x |-> RNeg(e(j))], f |-> RNeg(Total(Weights(x), c))]

OInit == n = 1 /\ edges = <<>> /\ form = "plain" /\ cost = <<>> /\ slope = <<>> /\ lev = <<>> /\ level = 0 /\ pot = <<0>>
Setup(nn, ee, fo, cc, ss, ll) ==
    n' = nn /\ edges' = ee /\ form' = fo /\ cost' = cc /\ slope' = ss /\ lev' = ll /\ level' = 0 /\ pot' = VZero(nn)
SetLevel(x) == form = "plain" /\ level' = x /\ UNCHANGED <<n, edges, form, cost, slope, lev, pot>>

(* Answers.  cut = <<>> for none; samples: points for which a cut is tried *)
GoodCut(x, g, f, samples, best, tol) ==
    \A k \in DOMAIN samples :
        (Acceptable(samples[k]) /\ (form = "plain" \/ NotWorse(Value(samples[k]), best))) =>
            RLe(CutAt(g, f, x, samples[k]), tol)
=============================================================================
