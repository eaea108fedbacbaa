---------------------------- MODULE MCParametric ----------------------------
(* All graphs with edges from a list of places, small costs and times; the
   cycle offered at each step is any negative one, in any order. *)
EXTENDS Parametric, TLC, Json

CONSTANTS Places, MaxN, Costs, Times, Starts, Limits,
    True   \* candidates are the true ratios; otherwise scripted

P2 == <<[u |-> 1, v |-> 2], [u |-> 2, v |-> 1], [u |-> 1, v |-> 2], [u |-> 2, v |-> 2]>>
P3 == <<[u |-> 1, v |-> 2], [u |-> 2, v |-> 1], [u |-> 2, v |-> 3], [u |-> 3, v |-> 1], [u |-> 3, v |-> 2]>>
C2 == {0-1, 0, 3, 9}            \* 9: no such edge
C3 == {0-2, 1, 9}
C3more == {0-2, 0, 3, 9}
StartSet == <<5, 0-5, RDiv(1, 2)>>
Script == <<<<0-1, 0-2>>, <<0, 0>>, <<4, 1>>, <<9, 0>>, <<0-3, 0-1>>>>

VARIABLE plan   \* the scripted candidates

MInit == PInit /\ plan = <<>>
MNext ==
    \/ /\ pc = "idle"
       /\ \E f \in [DOMAIN Places -> Costs], g \in Times, s \in DOMAIN Starts, lim \in Limits, k \in (IF True THEN {1} ELSE DOMAIN Script) :
            LET idx == SelectSeq([i \in DOMAIN Places |-> i], LAMBDA i : f[i] # 9)
            IN  /\ idx # <<>>
                /\ Begin(MaxN, [i \in DOMAIN idx |-> Places[idx[i]]], [i \in DOMAIN idx |-> f[idx[i]]],
                         [i \in DOMAIN idx |-> g[1 + (i % 2)]], Starts[s], lim)
                /\ plan' = IF True THEN <<>> ELSE Script[k]
    \/ /\ pc = "search" /\ UNCHANGED plan
       /\ \E c \in Cycles(edges) :
            /\ CanOffer(c)
            /\ IF True THEN Offer(c, RatioOf(c))
               ELSE Offer(c, IF count < Len(plan) THEN plan[count + 1] ELSE r)
    \/ Stop /\ UNCHANGED plan
MSpec == MInit /\ [][MNext]_<<pvars, plan>>

TimesSet == {<<1, 1>>, <<1, 3>>}
Lims == {0, 1, 2, 9}
Lim9 == {99}

ReferenceAgrees == (pc = "search" /\ count = 0) =>
    (NoNegativeCycle(n, edges, At(cost, time, r)) <=> \A c \in Cycles(edges) : ~RLt(Total(At(cost, time, r), c), 0))
EndsOptimal == (pc = "ended" /\ True /\ limit > 20) =>
    /\ Optimal(n, edges, cost, time, r0, r, best, 0)
    /\ \A c \in Cycles(edges) : RLe(r, RatioOf(c))
    /\ best # <<>> => REq(r, RatioOf(best))
Strictly == True => (pc = "ended" /\ count > 0 /\ limit > 20 => REq(r, RatioOf(best)))
Terminates == count < 15      \* at most one offer per cycle ratio
NeverStuck == pc = "search" => ENABLED MNext
Emit == (pc = "search" /\ count = 0) =>
    PrintT("@@" \o ToJson(<<n, [i \in DOMAIN edges |-> <<edges[i].u, edges[i].v>>], [i \in DOMAIN cost |-> cost[i]],
                            [i \in DOMAIN time |-> time[i]], RShow(r0), limit, [i \in DOMAIN plan |-> plan[i]]>>))
=============================================================================
