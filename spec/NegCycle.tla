------------------------------ MODULE NegCycle ------------------------------
(***************************************************************************)
(* Negative-cycle search by relaxation.  Each relaxed edge becomes the     *)
(* policy of its target; a cycle in the policy graph ends the search.  The *)
(* order of relaxations and the moments at which the policy graph is       *)
(* looked at are left open.                                                *)
(***************************************************************************)
EXTENDS Graph, FiniteSets

VARIABLES
    n, edges, w,   \* the graph, and the weights of this search
    dist,          \* potentials
    policy,        \* node -> edge index, 0 if none
    searching

nvars == <<n, edges, w, dist, policy, searching>>

NInit == n = 1 /\ edges = <<>> /\ w = <<>> /\ dist = <<0>> /\ policy = <<0>> /\ searching = FALSE

\* a search may start from any potentials; nothing is kept from the last one
Search(nn, ee, ww, dd) ==
    /\ n' = nn /\ edges' = ee /\ w' = ww /\ dist' = dd
    /\ policy' = [i \in 1..nn |-> 0] /\ searching' = TRUE

Tense(i) == RLt(RAdd(dist[edges[i].u], w[i]), dist[edges[i].v])

Relax(i) ==
    /\ searching /\ Tense(i)
    /\ dist' = [dist EXCEPT ![edges[i].v] = RAdd(dist[edges[i].u], w[i])]
    /\ policy' = [policy EXCEPT ![edges[i].v] = i]
    /\ UNCHANGED <<n, edges, w, searching>>

\* follow the policy k steps back from v
RECURSIVE Back(_, _)
Back(v, k) == IF k = 0 \/ v = 0 THEN v
              ELSE Back(IF policy[v] = 0 THEN 0 ELSE edges[policy[v]].u, k - 1)
OnCycle(v) == \E k \in 1..n : Back(v, k) = v
RECURSIVE PolicyWalk(_, _)
PolicyWalk(v, k) == IF k = 0 THEN <<>> ELSE <<policy[v]>> \o PolicyWalk(edges[policy[v]].u, k - 1)
PolicyCycle(v) == PolicyWalk(v, CHOOSE k \in 1..n : Back(v, k) = v /\ \A j \in 1..(k-1) : Back(v, j) # v)

\* the two ways to end
Found(c) == /\ searching /\ SimpleCycle(edges, c) /\ RLt(Total(w, c), 0)
            /\ searching' = FALSE /\ UNCHANGED <<n, edges, w, dist, policy>>
NoneLeft == /\ searching /\ Satisfied(edges, w, dist)
            /\ searching' = FALSE /\ UNCHANGED <<n, edges, w, dist, policy>>

-----------------------------------------------------------------------------
\* whatever the order, a cycle of the policy graph is a negative cycle
PolicyCyclesAreNegative ==
    searching => \A v \in 1..n : OnCycle(v) => SimpleCycle(edges, PolicyCycle(v)) /\ RLt(Total(w, PolicyCycle(v)), 0)
\* while there is none, potentials are bounded below, so relaxing ends
BoundedBelow ==
    (searching /\ \A v \in 1..n : ~OnCycle(v)) =>
        \A v \in 1..n : \E u \in 1..n : Back(v, n) = 0
\* and it cannot end without an answer
AnswerExists == (searching /\ \A i \in DOMAIN edges : ~Tense(i)) => NoNegativeCycle(n, edges, w)
=============================================================================
