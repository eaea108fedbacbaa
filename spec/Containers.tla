----------------------------- MODULE Containers -----------------------------
(***************************************************************************)
(* Registers that hold sets and finite maps, with value semantics: what an *)
(* operation does to one register it does to no other.  A register that    *)
(* was moved from holds something unknown until it is given a value again. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES sets, maps       \* register -> value or Unknown

Unknown == [unknown |-> TRUE]
SetVal(s) == [unknown |-> FALSE, of |-> s]
MapVal(f) == [unknown |-> FALSE, of |-> f]
Empty == [k \in {} |-> 0]

CInit == /\ sets = <<SetVal({}), SetVal({})>>
         /\ maps = <<MapVal(Empty), MapVal(Empty)>>

Known(f, r) == ~f[r].unknown
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* op, register, other register, key, value
SetOps == {"make", "insert", "erase", "clear", "copy", "move"}
SetNeeds(op, r, q) == CASE op \in {"make", "clear"} -> TRUE
                        [] op \in {"insert", "erase"} -> Known(sets, r)
                        [] op \in {"copy", "move"} -> Known(sets, q) /\ r # q
SetOp(op, r, q, k, v) ==
    /\ SetNeeds(op, r, q)
    /\ UNCHANGED maps
    /\ sets' = CASE op = "make" -> [sets EXCEPT ![r] = SetVal({k, v})]
                 [] op = "clear" -> [sets EXCEPT ![r] = SetVal({})]
                 [] op = "insert" -> [sets EXCEPT ![r] = SetVal(@.of \cup {k})]
                 [] op = "erase" -> [sets EXCEPT ![r] = SetVal(@.of \ {k})]
                 [] op = "copy" -> [sets EXCEPT ![r] = sets[q]]
                 [] op = "move" -> [sets EXCEPT ![r] = sets[q], ![q] = Unknown]

\* put overwrites, insert does not, touch reads through the mutable lookup
MapOps == {"make", "put", "insert", "touch", "erase", "clear", "copy", "move"}
MapNeeds(op, r, q) == CASE op \in {"make", "clear"} -> TRUE
                        [] op \in {"put", "insert", "touch", "erase"} -> Known(maps, r)
                        [] op \in {"copy", "move"} -> Known(maps, q) /\ r # q
MapOp(op, r, q, k, v) ==
    /\ MapNeeds(op, r, q)
    /\ UNCHANGED sets
    /\ maps' = CASE op = "make" -> [maps EXCEPT ![r] = MapVal(k :> v)]
                 [] op = "clear" -> [maps EXCEPT ![r] = MapVal(Empty)]
                 [] op = "put" -> [maps EXCEPT ![r] = MapVal((k :> v) @@ @.of)]
                 [] op = "insert" -> [maps EXCEPT ![r] = MapVal(@.of @@ (k :> v))]
                 [] op = "touch" -> [maps EXCEPT ![r] = MapVal(@.of @@ (k :> 0))]
                 [] op = "erase" -> [maps EXCEPT ![r] = MapVal(Without(@.of, k))]
                 [] op = "copy" -> [maps EXCEPT ![r] = maps[q]]
                 [] op = "move" -> [maps EXCEPT ![r] = maps[q], ![q] = Unknown]

-----------------------------------------------------------------------------
(* What a register shows: the elements in any order, each once; its size;  *)
(* and for each key asked about whether it is there, and what it stands for.*)
Elements(q) == {q[i] : i \in DOMAIN q}
ShowsSet(s, o) ==
    /\ Elements(o.items) = s /\ Len(o.items) = Cardinality(s) /\ o.len = Cardinality(s)
    /\ \A i \in DOMAIN o.asked : o.has[i] = (o.asked[i] \in s) /\ o.less[i] = (o.asked[i] \in s)
ShowsMap(f, o) ==
    /\ Elements(o.keys) = DOMAIN f /\ Len(o.keys) = Cardinality(DOMAIN f) /\ o.len = Cardinality(DOMAIN f)
    /\ \A q \in {o.items, o.via} : Elements(q) = {<<k, f[k]>> : k \in DOMAIN f} /\ Len(q) = Cardinality(DOMAIN f)
    /\ \A i \in DOMAIN o.asked :
         LET k == o.asked[i] IN
         /\ o.has[i] = (k \in DOMAIN f) /\ o.less[i] = (k \in DOMAIN f)
         /\ o.get[i] = (IF k \in DOMAIN f THEN f[k] ELSE o.default)
         /\ o.found[i] = (k \in DOMAIN f)
         /\ k \in DOMAIN f => o.at[i] = f[k]

(* Ranges and enumerations. *)
RangeSize(a, b) == IF b > a THEN b - a ELSE 0
ShowsRange(a, b, o) ==
    /\ o.size = RangeSize(a, b) /\ o.empty = (RangeSize(a, b) = 0)
    /\ o.items = [i \in 1..RangeSize(a, b) |-> a + i - 1]
    /\ o.nth = [i \in 1..RangeSize(a, b) |-> a + i - 1]
    /\ \A i \in DOMAIN o.asked : o.has[i] = (a <= o.asked[i] /\ o.asked[i] < b)
ShowsEnum(list, pairs) == pairs = [i \in DOMAIN list |-> <<i - 1, list[i]>>]
=============================================================================
