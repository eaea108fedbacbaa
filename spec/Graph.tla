------------------------------- MODULE Graph -------------------------------
(* Weighted directed multigraphs: nodes 1..n, edges a sequence of [u, v];
   weights a sequence of rationals along the edges. *)
EXTENDS Rat

\* an edge list is a simple closed walk, listed forwards or backwards
Chained(edges, c) == \A i \in DOMAIN c : edges[c[i]].v = edges[c[IF i = Len(c) THEN 1 ELSE i + 1]].u
Reversed(c) == [i \in DOMAIN c |-> c[Len(c) + 1 - i]]
SimpleCycle(edges, c) ==
    /\ Len(c) > 0
    /\ \A i \in DOMAIN c : c[i] \in DOMAIN edges
    /\ Chained(edges, c) \/ Chained(edges, Reversed(c))
    /\ \A i, j \in DOMAIN c : i # j => edges[c[i]].v # edges[c[j]].v

Total(w, c) == RSumSeq([i \in DOMAIN c |-> w[c[i]]])

\* potentials under which no edge can be relaxed
Satisfied(edges, w, d) == \A i \in DOMAIN edges : RLe(d[edges[i].v], RAdd(d[edges[i].u], w[i]))

(* Bellman-Ford from all nodes at once, rounds rounds *)
RECURSIVE Relaxed(_, _, _, _), Rounds(_, _, _, _)
Relaxed(edges, w, d, i) ==
    IF i > Len(edges) THEN d
    ELSE LET x == RAdd(d[edges[i].u], w[i])
         IN  Relaxed(edges, w, IF RLt(x, d[edges[i].v]) THEN [d EXCEPT ![edges[i].v] = x] ELSE d, i + 1)
Rounds(edges, w, d, k) ==
    IF k = 0 \/ Satisfied(edges, w, d) THEN d ELSE Rounds(edges, w, Relaxed(edges, w, d, 1), k - 1)
NoNegativeCycle(n, edges, w) ==
    Satisfied(edges, w, Rounds(edges, w, [i \in 1..n |-> 0], n))

\* the same by listing all simple cycles (small graphs; checks the above)
RECURSIVE Walks(_, _, _)
Walks(edges, paths, k) ==
    IF k = 0 THEN paths
    ELSE Walks(edges, paths \cup {Append(p, e) : p \in {q \in paths : Len(q) < 4}, e \in DOMAIN edges}, k - 1)
Cycles(edges) == {c \in Walks(edges, {<<e>> : e \in DOMAIN edges}, 2) : SimpleCycle(edges, c) /\ Chained(edges, c)}
=============================================================================
