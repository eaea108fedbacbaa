------------------------------ MODULE MCSolve ------------------------------
(* Searches of small problems over a grid: any point that is left may be    *)
(* asked about, and what an answer gives up is struck off.                  *)
EXTENDS Solve, FiniteSets, TLC, Json

CONSTANTS Form, Costs, Times, MaxEdges

VARIABLES left, asked
mvars == <<svars, left, asked>>

None == 9
CR == {0-2, 1, 3}
CRt == {0-2, 0-1, 0, 1, 3}
CS == {0-1, 2}
CSt == {0-1, 0, 1, 2}
CP == {4, 40}
CPt == {4, 10, 25, 40}
T1 == {1}
T2 == {1, 3}
T3 == {1, 2, 3}
Places == IF Form = "ratio" THEN <<[u |-> 1, v |-> 2], [u |-> 2, v |-> 1], [u |-> 1, v |-> 1], [u |-> 2, v |-> 1]>>
          ELSE <<[u |-> 1, v |-> 2], [u |-> 2, v |-> 1], [u |-> 2, v |-> 3], [u |-> 3, v |-> 1]>>
Nets == {[form |-> Form, n |-> IF Form = "ratio" THEN 2 ELSE 3,
          edges |-> LET idx == SelectSeq([i \in DOMAIN Places |-> i], LAMBDA i : f[i] # None) IN [i \in DOMAIN idx |-> Places[idx[i]]],
          cost |-> LET idx == SelectSeq([i \in DOMAIN Places |-> i], LAMBDA i : f[i] # None) IN [i \in DOMAIN idx |-> f[idx[i]]],
          time |-> LET idx == SelectSeq([i \in DOMAIN Places |-> i], LAMBDA i : f[i] # None) IN [i \in DOMAIN idx |-> IF i = 1 THEN a ELSE 1]] :
         f \in {h \in [DOMAIN Places -> Costs \cup {None}] : LET k == Cardinality({i \in DOMAIN h : h[i] # None}) IN k >= 2 /\ k <= MaxEdges}, a \in Times}
Sym(a, b, c) == << <<a, b>>, <<b, c>> >>
Blocks == {[F |-> <<Sym(a, b, 0), Sym(0, 1, d)>>, F0 |-> Sym(2, 1, e)] : a \in Times, b \in {0-1, 0}, d \in Times, e \in {0-1, 1, 2}}
Problems ==
    CASE Form \in {"ratio", "scale"} -> Nets
      [] Form = "matrix" -> {[form |-> "matrix", blocks |-> <<b, [F |-> <<Sym(1, 0, 0-1), Sym(0, 1, 0)>>, F0 |-> Sym(3, 0, 3)]>>, c |-> <<h, 1>>] : b \in Blocks, h \in Costs}
      [] Form = "filter" -> {[form |-> "filter", pass |-> << <<1, a>> >>, stop |-> << <<1, b>>, <<1, c>> >>, other |-> << <<1, d>> >>,
                              lower |-> 1, upper |-> h] : a \in Costs, b \in Costs, c \in Costs, d \in {0-2, 1}, h \in Times}
      [] Form = "profit" -> {[form |-> f, p |-> 20, A |-> c, k |-> k + 1, a |-> <<"0.1", "0.4">>, v |-> <<10, v2>>,
                              e |-> <<"0.003", "0.007">>, e3 |-> IF f = "robust" THEN 1 ELSE 0] :
                             f \in {"profit", "robust"}, c \in Costs, k \in Times, v2 \in {5, 20}}
GridOf == CASE Form = "filter" -> {<<a, b>> : a \in (0-1)..4, b \in (0-2)..2}
            [] Form = "ratio" -> {<<k>> : k \in (0-4)..4}
            [] Form = "scale" -> {<<a, b>> : a \in (0-2)..3, b \in (0-2)..3}
            [] Form = "matrix" -> {<<a, b>> : a \in (0-2)..2, b \in (0-2)..2}
            [] Form = "profit" -> {<<a, b>> : a \in {0-1, 0, 1, 2}, b \in {0, 1, 2, 3}}
\* the order of the questions matters little: a few choices of each step
Ahead == {z \in left : Cardinality({y \in left : y[1] < z[1] \/ (y[1] = z[1] /\ y[Len(y)] < z[Len(z)])}) \in {0, Cardinality(left) \div 2, Cardinality(left) - 1}}
Strike(c, x) == left' = {z \in left \ {x} : Keeps(c, x, z)}
Far == 100000
MInit == SInit /\ left = {} /\ asked = 0
MNext ==
    \/ /\ prob.form = "none"
       /\ \E p \in Problems : SBegin(p, CASE Form = "profit" -> 0 [] Form = "ratio" -> 0 - Far [] OTHER -> Far)
       /\ left' = GridOf /\ asked' = 0
    \/ /\ left # {}
       /\ \E x \in Ahead :
            /\ Ask(x) /\ asked' = asked + 1
            /\ IF Acceptable(prob, x, 0) THEN Strike(Towards(prob, x, best'), x)
               ELSE \E c \in Refusals(prob, x, best) : Strike(c, x)
MSpec == MInit /\ [][MNext]_mvars
\* nothing better is ever given up, so that the end is the optimum of the grid
NothingBetterLost == prob.form # "none" =>
    \A z \in GridOf : (Acceptable(prob, z, 0) /\ Betters(prob, Value(prob, z), best)) => z \in left
BestIsAttained == /\ prob.form # "none" /\ bestx # <<>> => Acceptable(prob, bestx[1], 0) /\ REq(Value(prob, bestx[1]), best)
                  /\ prob.form # "none" /\ bestx = <<>> => REq(best, init)
\* a search that is not over has something to ask about and an answer to it
NeverStuck == prob.form # "none" => \A x \in left : Acceptable(prob, x, 0) \/ Refusals(prob, x, best) # {}
Flat == CASE Form \in {"ratio", "scale"} -> <<prob.n, [i \in DOMAIN prob.edges |-> <<prob.edges[i].u, prob.edges[i].v>>], prob.cost, prob.time>>
          [] Form = "matrix" -> <<[k \in DOMAIN prob.blocks |-> <<prob.blocks[k].F0, prob.blocks[k].F>>], prob.c>>
          [] Form = "filter" -> <<prob.pass, prob.stop, prob.other, prob.lower, prob.upper>>
          [] Form = "profit" -> <<prob.p, prob.A, prob.k, prob.a, prob.v, prob.e, prob.e3>>
Emit == prob.form # "none" /\ asked = 0 => PrintT("@@" \o ToJson(<<prob.form, Flat>>))
=============================================================================
