---------------------------- MODULE GraphViewTrace ----------------------------
(* Recorded histories of graph adaptors and simple graphs.  Which of the four  *)
(* kinds a case is about stands in its Begin event.                            *)
EXTENDS TraceBase, Integers, FiniteSets

VARIABLES graphs, kind
MD == INSTANCE GraphView WITH Multi <- TRUE, Directed <- TRUE, Grows <- TRUE, Copies <- TRUE
MU == INSTANCE GraphView WITH Multi <- TRUE, Directed <- FALSE, Grows <- TRUE, Copies <- TRUE
BD == INSTANCE GraphView WITH Multi <- FALSE, Directed <- TRUE, Grows <- TRUE, Copies <- TRUE
SD == INSTANCE GraphView WITH Multi <- FALSE, Directed <- TRUE, Grows <- FALSE, Copies <- FALSE
SU == INSTANCE GraphView WITH Multi <- FALSE, Directed <- FALSE, Grows <- FALSE, Copies <- FALSE

TInit == MD!GInit /\ kind = "none" /\ l = 1
Do(op, r, q, u, v, d) ==
    CASE kind = "multi-directed" -> MD!GOp(op, r, q, u, v, d)
      [] kind = "multi-undirected" -> MU!GOp(op, r, q, u, v, d)
      [] kind = "set-directed" -> BD!GOp(op, r, q, u, v, d)
      [] kind = "simple-directed" -> SD!GOp(op, r, q, u, v, d)
      [] kind = "simple-undirected" -> SU!GOp(op, r, q, u, v, d)
Adds(g, u, v) ==
    CASE kind \in {"multi-directed", "multi-undirected"} -> TRUE
      [] kind \in {"set-directed", "simple-directed"} -> SD!Adds(g, u, v)
      [] kind = "simple-undirected" -> SU!Adds(g, u, v)
ShowsEdges(g, p) == IF kind \in {"multi-undirected", "simple-undirected"} THEN MU!ShowsEdges(g, p) ELSE MD!ShowsEdges(g, p)
ShowsOut(g, p) ==
    CASE kind = "multi-undirected" -> MU!ShowsOut(g, p)
      [] kind = "simple-undirected" -> SU!ShowsOut(g, p)
      [] OTHER -> MD!ShowsOut(g, p)
Joined(g, u, v) == IF kind \in {"multi-undirected", "simple-undirected"} THEN MU!Joined(g, u, v) ELSE MD!Joined(g, u, v)
Between(g, u, v) == IF kind \in {"multi-undirected", "simple-undirected"} THEN MU!Between(g, u, v) ELSE MD!Between(g, u, v)

Good(g, o) ==
    /\ Chk("vertices", MD!ShowsNodes(g, o))
    /\ Chk("edge-count", o.m = Len(g.es))
    /\ Chk("edges-through-every-view", \A i \in DOMAIN o.lists : ShowsEdges(g, o.lists[i]))
    /\ Chk("edges-out-of-each-vertex", \A i \in DOMAIN o.outs : ShowsOut(g, o.outs[i]))
    /\ Chk("has-edge", \A i \in DOMAIN o.has : o.has[i] = Joined(g, o.asked[i][1], o.asked[i][2]))
    /\ Chk("what-edges-carry", \A i \in DOMAIN o.carries :
               Joined(g, o.asked[i][1], o.asked[i][2]) => o.carries[i] = Between(g, o.asked[i][1], o.asked[i][2])[1].d)
    /\ Chk("degrees", \A i \in DOMAIN o.degrees : Len(o.outs) > 0 => o.degrees[i] = Len(o.outs[1][i]))

TNext ==
    \/ Is("Begin") /\ graphs' = <<MD!Nothing, MD!Nothing>> /\ kind' = ev.kind
    \/ /\ Is("Op") /\ UNCHANGED kind
       /\ Act("operation", Do(ev.op, ev.r, ev.q, ev.u, ev.v, ev.d))
       /\ Chk("adding-says-whether-it-added", ev.op = "add" /\ ev.says => ev.added = Adds(graphs[ev.r], ev.u, ev.v))
       /\ Chk("the-new-edge-has-its-ends", ev.op = "add" /\ ev.says => ev.ends = <<ev.u, ev.v>>)
       /\ Chk("shows-what-is-known", \A r \in 1..2 : ev.shows[r].shown = graphs'[r].known)
       /\ \A r \in 1..2 : ev.shows[r].shown => Good(graphs'[r], ev.shows[r])
TView == l
TSpec == TInit /\ [][TNext]_<<graphs, kind, l>>
=============================================================================
