----------------------------- MODULE MCNegCycle -----------------------------
(* All graphs on up to MaxN nodes with edges drawn from a list of places and
   weights in a small range, relaxed in every order until the policy graph has
   a cycle or nothing is tense. *)
EXTENDS NegCycle, TLC, Json

CONSTANTS Places, MaxN, Weights, Starts, Small

VARIABLE orig

P2 == <<[u |-> 1, v |-> 2], [u |-> 2, v |-> 1], [u |-> 1, v |-> 2], [u |-> 1, v |-> 1]>>
P3 == <<[u |-> 1, v |-> 2], [u |-> 2, v |-> 1], [u |-> 2, v |-> 3], [u |-> 3, v |-> 1], [u |-> 1, v |-> 3], [u |-> 3, v |-> 2]>>
P4 == <<[u |-> 1, v |-> 2], [u |-> 2, v |-> 1], [u |-> 2, v |-> 3], [u |-> 3, v |-> 4], [u |-> 4, v |-> 1], [u |-> 3, v |-> 1], [u |-> 4, v |-> 2]>>
W2 == {0-1, 0, 1, 9}            \* 9: no such edge
W3 == {0-2, 1, 9}
W3more == {0-2, 0-1, 0, 1, 9}
S1 == <<<<0, 0, 0, 0>>, <<3, 0-2, 1, 0>>>>

MInit == NInit /\ orig = <<>>
MNext ==
    \/ /\ n = 1 /\ ~searching /\ orig = <<>>
       /\ \E f \in [DOMAIN Places -> Weights], s \in DOMAIN Starts :
            LET idx == SelectSeq([i \in DOMAIN Places |-> i], LAMBDA i : f[i] # 9)
            IN  /\ Search(MaxN, [i \in DOMAIN idx |-> Places[idx[i]]], [i \in DOMAIN idx |-> f[idx[i]]], SubSeq(Starts[s], 1, MaxN))
                /\ orig' = SubSeq(Starts[s], 1, MaxN)
    \/ /\ searching /\ \A v \in 1..n : ~OnCycle(v)
       /\ Small \* relax in every order, or only list the graphs
       /\ \E i \in DOMAIN edges : Relax(i)
       /\ UNCHANGED orig
    \/ /\ searching /\ \E v \in 1..n : OnCycle(v) /\ Found(PolicyCycle(v))
       /\ UNCHANGED orig
    \/ NoneLeft /\ UNCHANGED orig
MSpec == MInit /\ [][MNext]_<<nvars, orig>>

\* the two ways of telling whether there is a negative cycle agree
ReferenceAgrees == (searching /\ dist = orig /\ n <= 3) =>
    (NoNegativeCycle(n, edges, w) <=> \A c \in Cycles(edges) : RLe(0, Total(w, c)))
NeverStuck == searching /\ Small => ENABLED MNext
Emit == (searching /\ dist = orig /\ \A i \in 1..n : policy[i] = 0) =>
    PrintT("@@" \o ToJson(<<n, [i \in DOMAIN edges |-> <<edges[i].u, edges[i].v>>], [i \in DOMAIN w |-> w[i]], orig>>))
=============================================================================
