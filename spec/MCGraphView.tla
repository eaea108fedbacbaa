----------------------------- MODULE MCGraphView -----------------------------
(* All short histories on two registers of small graphs. *)
EXTENDS GraphView, Json

CONSTANTS Depth, Verts, Tag
VARIABLE script
MInit == GInit /\ script = <<>>
MNext ==
    /\ Len(script) < Depth
    /\ \E op \in Ops, r \in 1..2, u \in 0..(Verts - 1), v \in 0..(Verts - 1) :
         LET q == 3 - r d == Len(script) + 1 IN
         /\ op \notin {"add", "bare"} => v = 0
         /\ op = "make" => u = Verts - 1 \/ Grows
         /\ op \in {"clear", "copy", "move"} => u = 0
         \* the registers are alike: the first to be made is register 1
         /\ script = <<>> => r = 1 /\ op = "make"
         /\ GOp(op, r, q, u, v, d)
         /\ script' = Append(script, <<op, r, q, u, v, d>>)
MSpec == MInit /\ [][MNext]_<<graphs, script>>

Independent == [][\A r \in 1..2 : LET o == script'[Len(script')] IN
    r # o[2] /\ ~(o[1] = "move" /\ r = o[3]) => graphs'[r] = graphs[r]]_<<graphs, script>>
\* only clearing, making and replacing a graph takes edges or vertices away
Kept == [][\A r \in 1..2 : LET o == script'[Len(script')] IN
    o[1] \in {"add", "bare"} => /\ graphs'[r].n >= graphs[r].n
                    /\ \A i \in DOMAIN graphs[r].es : Ends(graphs'[r].es[i]) = Ends(graphs[r].es[i])]_<<graphs, script>>
Sound == \A r \in 1..2 : graphs[r].known =>
    /\ \A i \in DOMAIN graphs[r].es : graphs[r].es[i].u < graphs[r].n /\ graphs[r].es[i].v < graphs[r].n
    /\ ~Multi => \A i, j \in DOMAIN graphs[r].es : i # j => Ends(graphs[r].es[i]) # Ends(graphs[r].es[j])
\* every edge is listed once out of each of its ends
Sum(f, n) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + f[i] IN S[n]
Handshake == \A r \in 1..2 : graphs[r].known /\ graphs[r].n > 0 =>
    LET g == graphs[r]
        loops == Cardinality({i \in DOMAIN g.es : g.es[i].u = g.es[i].v})
        deg == [x \in 1..g.n |-> Len(Out(g.es, x - 1, 1))]
    IN  Sum(deg, g.n) = IF Directed THEN Len(g.es) ELSE IF Multi THEN 2 * Len(g.es) ELSE 2 * Len(g.es) - loops
Emit == Len(script) = Depth => PrintT("@@" \o ToJson(<<Tag, script>>))
=============================================================================
