------------------------------- MODULE MCLdlt -------------------------------
(* All symmetric matrices of small integers. *)
EXTENDS Ldlt, TLC, Json
CONSTANTS N, Entry, DiagE
Eq == {0-1, 0, 2}
Dq == {0-1, 0, 1, 4}
Et == {0-2, 0-1, 0, 1}
Dt == {0-1, 0, 1, 2, 5}
E01 == {0, 1}
D4 == {0, 1, 2, 3}
E1 == {0-3, 0-1, 0, 1, 2}
Places == {<<i, j>> \in (1..N) \X (1..N) : i < j}
MInit == FInit
MNext == \/ fpc = "idle" /\ \E f \in [Places -> Entry], d \in [1..N -> DiagE], s \in BOOLEAN :
                FBegin([i \in 1..N |-> [j \in 1..N |-> IF i = j THEN d[i] ELSE IF i < j THEN f[<<i, j>>] ELSE f[<<j, i>>]]], s)
         \/ FRow
MSpec == MInit /\ [][MNext]_fvars
NeverStuck == fpc = "rows" => ENABLED FRow
Emit == (fpc = "rows" /\ row = 0) => PrintT("@@" \o ToJson(<<N, semi, A>>))
=============================================================================
