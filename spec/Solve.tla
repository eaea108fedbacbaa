------------------------------- MODULE Solve -------------------------------
(***************************************************************************)
(* Whole solves of the problems that the library's oracles pose.           *)
(*    "ratio"   greatest r such that no cycle of cost - r time is negative *)
(*    "scale"   least x_1 - x_2 such that no cycle is negative, an edge    *)
(*              upwards weighing x_1 - cost, any other cost - x_2          *)
(*    "profit"  greatest profit (module Profit), "robust" the same for the *)
(*              worst data in a box                                        *)
(*    "matrix"  least c.x with F0 - sum x_k F_k positive for every block   *)
(*    "norm"    least t with t I - R'R positive, R = F0 - sum x_k F_k      *)
(*    "filter"  least greatest stop-band response, the pass band between   *)
(*              two bounds and no response below zero                      *)
(* A search asks about points.  One that is acceptable and better than the *)
(* best so far becomes the best; of any other a half-space, or the outside *)
(* of a slab, is given up in which nothing is both.                        *)
(***************************************************************************)
EXTENDS Graph

VARIABLES
    prob,    \* [form, ...]
    init,    \* the value to be bettered
    best,    \* best value so far
    bestx    \* <<point>> at which it was found, <<>> before that
svars == <<prob, init, best, bestx>>

Pr == INSTANCE Profit WITH job <- prob, best <- best, at <- <<>>, yd <- <<>>, turn <- "ask", said <- bestx, Grid <- <<>>

Maximises(p) == p.form \in {"ratio", "profit", "robust"}
Betters(p, a, b) == IF Maximises(p) THEN RLt(b, a) ELSE RLt(a, b)

\* the weights of a network, less some room on every edge
Weights(p, x, room) == [i \in DOMAIN p.edges |-> RSub(
    IF p.form = "ratio" THEN RSub(p.cost[i], RMul(p.time[i], x[1]))
    ELSE IF p.edges[i].u < p.edges[i].v THEN RSub(x[1], p.cost[i]) ELSE RSub(p.cost[i], x[2]), room)]
Lin(b, x) == [i \in DOMAIN b.F0 |-> [j \in DOMAIN b.F0[i] |-> RSub(b.F0[i][j], RSumSeq([k \in DOMAIN x |-> RMul(b.F[k][i][j], x[k])]))]]
Less(m, r) == [i \in DOMAIN m |-> [j \in DOMAIN m |-> IF i = j THEN RSub(m[i][j], r) ELSE m[i][j]]]
Short(m) == MRound(m, 200)
Gap(b, x, t) == LET R == Short(Lin(b, x)) IN Less(Short(MScale(0-1, MMul(MTrans(R), R))), RNeg(t))

Rows(m, x) == [i \in DOMAIN m |-> VDot(m[i], x)]
\* acceptable with room to spare (or, with negative room, nearly so)
Acceptable(p, x, room) ==
    CASE p.form \in {"ratio", "scale"} -> NoNegativeCycle(p.n, p.edges, Weights(p, x, room))
      [] p.form \in {"profit", "robust"} -> RLe(room, Pr!Room(p, x))
      [] p.form = "matrix" -> \A k \in DOMAIN p.blocks : MPosDef(Less(Short(Lin(p.blocks[k], x)), room))
      [] p.form = "norm" -> TRUE
      [] p.form = "filter" ->
            /\ RLe(room, x[1])
            /\ \A i \in DOMAIN p.pass : LET v == VDot(p.pass[i], x) IN RLe(RAdd(p.lower, room), v) /\ RLe(v, RSub(p.upper, room))
            /\ \A i \in DOMAIN p.stop : RLe(room, VDot(p.stop[i], x))
            /\ \A i \in DOMAIN p.other : RLe(room, VDot(p.other[i], x))
\* is z's value better than t, clearly so if room is not 0?
Beats(p, z, t, room) ==
    CASE p.form = "ratio" -> RLt(RAdd(t, room), z[1])
      [] p.form = "scale" -> RLt(RSub(z[1], z[2]), RSub(t, room))
      [] p.form = "matrix" -> RLt(VDot(p.c, z), RSub(t, room))
      [] p.form \in {"profit", "robust"} -> RLt(RMul(RAdd(t, Pr!Cost(p, z)), RAdd(1, room)), Pr!Revenue(p, z))
      [] p.form = "norm" -> MPosDef(Gap(p.blocks[1], z, RSub(t, room)))
      [] p.form = "filter" -> RLt(RMaxSeq(Rows(p.stop, z)), RSub(t, room))
\* the value at a point, where it is a number
Value(p, x) ==
    CASE p.form = "ratio" -> x[1]
      [] p.form = "scale" -> RSub(x[1], x[2])
      [] p.form = "matrix" -> VDot(p.c, x)
      [] p.form \in {"profit", "robust"} -> Pr!W(p, x)
      [] p.form = "filter" -> RMaxSeq(Rows(p.stop, x))

SInit == prob = [form |-> "none"] /\ init = 0 /\ best = 0 /\ bestx = <<>>
SBegin(p, t) == prob' = p /\ init' = t /\ best' = t /\ bestx' = <<>>
\* x is asked about: v is its value there
Improves(x, v) == best' = v /\ bestx' = <<x>> /\ UNCHANGED <<prob, init>>
Ask(x) == IF Acceptable(prob, x, 0) /\ Betters(prob, Value(prob, x), best)
          THEN Improves(x, Value(prob, x)) ELSE UNCHANGED svars
-----------------------------------------------------------------------------
(* The answers, as half-spaces g.(z - x) + f <= 0 to be kept, of which     *)
(* only the part up to g.(z - x) + far = 0 if there is a far side.         *)
Slab(g, f, far) == [g |-> g, f |-> f, far |-> far]
Cut(g, f) == Slab(g, f, <<>>)
Keeps(c, x, z) == LET d == VDot(c.g, VSub(z, x)) IN
    RLe(RAdd(c.f, d), 0) /\ \A k \in DOMAIN c.far : RLe(0, RAdd(c.far[k], d))
\* a vector w with w'mw <= 0, for a matrix that is not positive definite
Lead(m, k) == [i \in 1..k |-> [j \in 1..k |-> m[i][j]]]
Against(m) ==
    LET k == CHOOSE q \in DOMAIN m : ~MPosDef(Lead(m, q)) /\ \A r \in 1..(q - 1) : MPosDef(Lead(m, r))
        w == IF k = 1 THEN <<>> ELSE MSolve(Lead(m, k - 1), [i \in 1..(k - 1) |-> RNeg(m[i][k])])
    IN  [i \in DOMAIN m |-> IF i < k THEN w[i] ELSE IF i = k THEN 1 ELSE 0]
\* rows of a filter that x breaks, t being the best value
Band(g, lo, hi, x) == LET v == VDot(g, x) IN
    (IF RLt(hi, v) THEN {Slab(g, RSub(v, hi), <<RSub(v, lo)>>)} ELSE {}) \cup
    (IF RLt(v, lo) THEN {Slab(VScale(0-1, g), RSub(lo, v), <<RSub(hi, v)>>)} ELSE {})
\* every way to refuse x
Refusals(p, x, t) ==
    CASE p.form \in {"ratio", "scale"} ->
            {LET w == Total(Weights(p, x, 0), c)
             IN  Cut([j \in DOMAIN x |-> RSub(w, Total(Weights(p, [x EXCEPT ![j] = RAdd(@, 1)], 0), c))], RNeg(w)) :
             c \in {d \in Cycles(p.edges) : RLt(Total(Weights(p, x, 0), d), 0)}}
      [] p.form \in {"profit", "robust"} -> {Cut(<<1, 0>>, RNeg(Pr!Room(p, x)))}
      [] p.form = "matrix" ->
            {LET m == Lin(p.blocks[k], x) w == Against(m)
             IN  Cut([j \in DOMAIN x |-> MQuad(p.blocks[k].F[j], w)], RNeg(MQuad(m, w))) :
             k \in {q \in DOMAIN p.blocks : ~MPosDef(Lin(p.blocks[q], x))}}
      [] p.form = "filter" ->
            UNION {Band(p.pass[i], p.lower, p.upper, x) : i \in DOMAIN p.pass} \cup
            UNION {Band(p.stop[i], 0, t, x) : i \in DOMAIN p.stop} \cup
            {Cut(VScale(0-1, g), RNeg(VDot(g, x))) : g \in {h \in {p.other[i] : i \in DOMAIN p.other} \cup {VUnit(Len(x), 1)} : RLt(VDot(h, x), 0)}}
\* towards what is better than t
Towards(p, x, t) ==
    CASE p.form = "ratio" -> Cut(<<0-1>>, RSub(t, x[1]))
      [] p.form = "scale" -> Cut(<<1, 0-1>>, RSub(Value(p, x), t))
      [] p.form = "matrix" -> Cut(p.c, RSub(Value(p, x), t))
      [] p.form \in {"profit", "robust"} -> Cut(Pr!Tangent(p, x, t), Pr!Phi(p, x, t))
      [] p.form = "filter" -> LET v == Rows(p.stop, x) i == CHOOSE k \in DOMAIN v : \A q \in DOMAIN v : RLe(v[q], v[k])
                              IN  Slab(p.stop[i], RSub(v[i], t), <<v[i]>>)
=============================================================================
