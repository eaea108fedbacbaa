--------------------------- MODULE ContainersTrace ---------------------------
(* Recorded operations on py::set and py::dict registers, with everything   *)
(* they show afterwards; ranges and enumerations.                            *)
EXTENDS Containers, TraceBase

TInit == CInit /\ l = 1
TNext ==
    \/ Is("Begin") /\ sets' = <<SetVal({}), SetVal({})>> /\ maps' = <<MapVal(Empty), MapVal(Empty)>>
    \/ /\ Is("Op")
       /\ IF ev.kind = "set" THEN SetOp(ev.op, ev.r, ev.q, ev.k, ev.v) ELSE MapOp(ev.op, ev.r, ev.q, ev.k, ev.v)
       /\ Chk("shows-what-is-known", \A r \in 1..2 : /\ ev.sets[r].shown = ~sets'[r].unknown
                                                     /\ ev.maps[r].shown = ~maps'[r].unknown)
       /\ Chk("sets-show-their-elements", \A r \in 1..2 : ev.sets[r].shown => ShowsSet(sets'[r].of, ev.sets[r]))
       /\ Chk("maps-show-their-entries", \A r \in 1..2 : ev.maps[r].shown => ShowsMap(maps'[r].of, ev.maps[r]))
       /\ Chk("the-lookup-gives-the-value", ev.kind # "set" /\ ev.op = "touch" => ev.got = maps'[ev.r].of[ev.k])
    \/ /\ Is("Range") /\ UNCHANGED <<sets, maps>>
       /\ Chk("range", ShowsRange(ev.a, ev.b, ev))
    \/ /\ Is("Enum") /\ UNCHANGED <<sets, maps>>
       /\ Chk("enumeration", ShowsEnum(ev.list, ev.pairs) /\ ShowsEnum(ev.list, ev.cpairs) /\ ShowsEnum(ev.list, ev.tpairs))
       /\ Chk("writes-reach-the-list", ev.now = [i \in DOMAIN ev.list |-> 2 * ev.list[i] + (i - 1)])
TView == l
TSpec == TInit /\ [][TNext]_<<sets, maps, l>>
=============================================================================
