---------------------------- MODULE MCNetOracle ----------------------------
(* Small networks, every answer a cycle could give from any potentials, and
   histories of queries with a best-so-far value. *)
EXTENDS NetOracle, TLC, Json

CONSTANTS Form, Places, MaxN, Costs, Slopes, Points, Depth

VARIABLES best, hist, ans

P2 == <<[u |-> 1, v |-> 2], [u |-> 2, v |-> 1], [u |-> 1, v |-> 2]>>
P3 == <<[u |-> 1, v |-> 2], [u |-> 2, v |-> 3], [u |-> 3, v |-> 1], [u |-> 2, v |-> 1]>>
Cs == {0-1, 2, 9}
Cs3 == {0-1, 1, 3, 9}
SlopesRatio == {<<1>>, <<2>>}
SlopesOne == {<<1>>}
SlopesAny == {<<0-1>>, <<1>>, <<0>>}
Pts1 == << <<0-1>>, <<0>>, <<1>>, <<2>> >>
PtsP == << <<0-1>>, <<0>>, <<2>> >>
Pts2 == << <<0, 0>>, <<2, 0-1>>, <<3, 1>>, <<0-1, 2>>, <<4, 0-2>>, <<2, 2>> >>
Far == 1000

MInit == OInit /\ best = 0 /\ hist = <<>> /\ ans = <<>>
MNext ==
    \/ /\ hist = <<>> /\ edges = <<>>
       /\ \E f \in [DOMAIN Places -> Costs], a \in Slopes, b \in Slopes :
            LET idx == SelectSeq([i \in DOMAIN Places |-> i], LAMBDA i : f[i] # 9)
            IN  /\ Len(idx) > 1
                /\ Setup(MaxN, [i \in DOMAIN idx |-> Places[idx[i]]], Form, [i \in DOMAIN idx |-> f[idx[i]]],
                         [i \in DOMAIN idx |-> IF i % 2 = 1 THEN a ELSE b], [i \in DOMAIN idx |-> i % 2])
       /\ best' = (IF Form = "ratio" THEN 0 - Far ELSE Far) /\ UNCHANGED <<hist, ans>>
    \/ /\ edges # <<>> /\ Len(hist) < Depth
       /\ \E k \in DOMAIN Points :
            LET x == Points[k]
                isLevel == Form = "plain" /\ k = 1 /\ level = 0 /\ Len(hist) > 0
            IN  IF isLevel
                THEN SetLevel(1) /\ hist' = Append(hist, <<"L", 1>>) /\ ans' = <<>> /\ UNCHANGED best
                ELSE /\ hist' = Append(hist, <<"Q", k>>)
                     /\ UNCHANGED <<n, edges, form, cost, slope, lev, level, pot>>
                     /\ IF Form = "ratio" /\ ~Better(Value(x), best)
                        THEN ans' = <<k, [g |-> <<0-1>>, f |-> RSub(best, Value(x))]>> /\ UNCHANGED best
                        ELSE IF ~Acceptable(x)
                        THEN \E c \in Cycles(edges) :
                                RLt(Total(Weights(x), c), 0) /\ ans' = <<k, CycleCut(c, x)>> /\ UNCHANGED best
                        ELSE IF Form # "plain" /\ Better(Value(x), best)
                        THEN best' = Value(x) /\ ans' = <<k>>
                        ELSE ans' = <<k>> /\ UNCHANGED best
MSpec == MInit /\ [][MNext]_<<ovars, best, hist, ans>>

CutsAreRight == Len(ans) = 2 =>
    /\ RLe(0, ans[2].f) /\ (Form # "ratio" => RLt(0, ans[2].f))
    /\ GoodCut(Points[ans[1]], ans[2].g, ans[2].f, Points, best, 0)
\* a point that is not acceptable always has a cycle to answer with
NeverStuck == (edges # <<>> /\ Len(hist) < Depth) => \A k \in DOMAIN Points :
    Acceptable(Points[k]) \/ \E c \in Cycles(edges) : RLt(Total(Weights(Points[k]), c), 0)
BestAttained == (Form # "plain" /\ edges # <<>> /\ RLt(RAbs(best), Far)) =>
    \E k \in DOMAIN Points : Acceptable(Points[k]) /\ REq(Value(Points[k]), best)
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(<<form, n, [i \in DOMAIN edges |-> <<edges[i].u, edges[i].v>>],
    [i \in DOMAIN cost |-> cost[i]], slope, lev, Points, hist>>))
=============================================================================
