---------------------------- MODULE MCContainers ----------------------------
(* All sequences of operations on two registers of each kind, small keys. *)
EXTENDS Containers, Json

CONSTANTS Depth, Keys, Vals, Kind
VARIABLE script
MInit == CInit /\ script = <<>>
MNext ==
    /\ Len(script) < Depth
    /\ \E op \in (IF Kind = "set" THEN SetOps ELSE MapOps), r \in 1..2, k \in Keys, v \in Vals :
         LET q == 3 - r IN
         /\ op \in {"clear", "copy", "move"} => k = 1 /\ (Kind = "set" => v = 1)   \* they take no arguments
         \* a value tells which step it came from
         /\ Kind = "map" => v = Len(script) + 1
         /\ Kind = "set" /\ op \in {"erase", "insert"} => v = 1
         /\ IF Kind = "set" THEN SetOp(op, r, q, k, v) ELSE MapOp(op, r, q, k, v)
         /\ script' = Append(script, <<op, r, q, k, v>>)
MSpec == MInit /\ [][MNext]_<<sets, maps, script>>
\* an operation touches its own register only, and the source of a move
Independent == [][\A r \in 1..2 : LET o == script'[Len(script')] IN
    r # o[2] /\ ~(o[1] = "move" /\ r = o[3]) => sets'[r] = sets[r] /\ maps'[r] = maps[r]]_<<sets, maps, script>>
Types == \A r \in 1..2 : /\ Known(sets, r) => sets[r].of \subseteq Keys \cup Vals
                         /\ Known(maps, r) => DOMAIN maps[r].of \subseteq Keys
Emit == Len(script) = Depth => PrintT("@@" \o ToJson(<<Kind, script>>))
=============================================================================
