------------------------------ MODULE GraphView ------------------------------
(***************************************************************************)
(* Registers that hold graphs.  A multigraph keeps every edge it is given  *)
(* and grows to hold its ends; a simple graph keeps one edge between two   *)
(* vertices.  What is done to one register does not show in another, and   *)
(* views opened before an addition show it.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Multi, Directed, Grows, Copies
VARIABLE graphs        \* register -> [known, n, es : Seq([u, v, d])]

Nothing == [known |-> FALSE, n |-> 0, es |-> <<>>]
Made(n) == [known |-> TRUE, n |-> n, es |-> <<>>]
GInit == graphs = <<Nothing, Nothing>>

Max(a, b) == IF a > b THEN a ELSE b
Elements(q) == {q[i] : i \in DOMAIN q}
Joins(e, u, v) == (e.u = u /\ e.v = v) \/ (~Directed /\ e.u = v /\ e.v = u)
Joined(g, u, v) == \E i \in DOMAIN g.es : Joins(g.es[i], u, v)
Between(g, u, v) == SelectSeq(g.es, LAMBDA e : Joins(e, u, v))

\* adding an edge that a simple graph has already replaces what it carries
Add(g, u, v, d) ==
    [g EXCEPT !.n = IF Grows THEN Max(@, Max(u, v) + 1) ELSE @,
              !.es = IF ~Multi /\ Joined(g, u, v)
                     THEN [i \in DOMAIN @ |-> IF Joins(@[i], u, v) THEN [@[i] EXCEPT !.d = d] ELSE @[i]]
                     ELSE Append(@, [u |-> u, v |-> v, d |-> d])]
Adds(g, u, v) == Multi \/ ~Joined(g, u, v)

\* without data: what is there stays, a new edge carries 0
Bare(g, u, v) == IF Joined(g, u, v) THEN g ELSE Add(g, u, v, 0)

Ops == {"make", "add", "bare", "clear", "copy", "move"}
Needs(op, r, q, u, v) ==
    CASE op = "make" -> TRUE
      [] op = "add" -> graphs[r].known /\ (Grows \/ (u < graphs[r].n /\ v < graphs[r].n))
      [] op = "bare" -> graphs[r].known /\ ~Copies /\ u < graphs[r].n /\ v < graphs[r].n
      [] op = "clear" -> graphs[r].known /\ ~Copies        \* (the simple graphs)
      [] op = "copy" -> graphs[q].known /\ r # q /\ Copies
      [] op = "move" -> graphs[q].known /\ r # q
GOp(op, r, q, u, v, d) ==
    /\ Needs(op, r, q, u, v)
    /\ graphs' = CASE op = "make" -> [graphs EXCEPT ![r] = Made(u)]
                   [] op = "add" -> [graphs EXCEPT ![r] = Add(@, u, v, d)]
                   [] op = "bare" -> [graphs EXCEPT ![r] = Bare(@, u, v)]
                   [] op = "clear" -> [graphs EXCEPT ![r] = [@ EXCEPT !.es = <<>>]]
                   [] op = "copy" -> [graphs EXCEPT ![r] = graphs[q]]
                   [] op = "move" -> [graphs EXCEPT ![r] = graphs[q], ![q] = Nothing]

-----------------------------------------------------------------------------
(* What a register shows. *)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Elements(p) : Count(p, x) = Count(q, x)

\* an undirected edge may be listed from either end
Ends(e) == IF Directed \/ e.u <= e.v THEN <<e.u, e.v>> ELSE <<e.v, e.u>>
Turned(p) == IF Directed \/ p[1] <= p[2] THEN p ELSE <<p[2], p[1]>>
\* the edges out of a vertex, seen from it (a loop counts from both its ends)
RECURSIVE Out(_, _, _)
Out(es, x, i) ==
    IF i > Len(es) THEN <<>>
    ELSE (IF es[i].u = x THEN << <<x, es[i].v>> >> ELSE <<>>)
         \o (IF ~Directed /\ es[i].v = x /\ (Multi \/ es[i].u # x) THEN << <<x, es[i].u>> >> ELSE <<>>)
         \o Out(es, x, i + 1)

ShowsNodes(g, o) ==
    /\ o.n = g.n /\ SameBag(o.nodes, [i \in 1..g.n |-> i - 1])
    /\ ~o.nullamong
ShowsEdges(g, list) == SameBag([i \in DOMAIN list |-> Turned(list[i])], [i \in DOMAIN g.es |-> Ends(g.es[i])])
ShowsOut(g, lists) == Len(lists) = g.n /\ \A x \in 0..(g.n - 1) : SameBag(lists[x + 1], Out(g.es, x, 1))
=============================================================================
