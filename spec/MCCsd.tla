------------------------------- MODULE MCCsd -------------------------------
(* Every number k/2^m of a range, in both forms, with every limit: the
   machine runs to its end, and what it gives satisfies the judges that the
   recorded conversions are held to; on short strings, nothing else does
   (for the fixed form: the digits up to the last one used are forced). *)
EXTENDS Csd, Json

CONSTANTS MaxK, MaxM, MaxPlaces, MaxNnz, Sequel

MInit == \E k \in (0 - MaxK)..MaxK, m \in 0..MaxM :
    \/ \E p \in 0..MaxPlaces : Start(RMul(k, RPow2(0 - m)), "places", p)
    \/ \E z \in 0..MaxNnz : Start(RMul(k, RPow2(0 - m)), "fixed", z)
MNext == Emit1
MSpec == MInit /\ [][MNext]_vars

Ended == ~More
Conserves == s # <<>> => REq(RAdd(RMul(Value(s), RPow2(IF w > 0 THEN w ELSE 0)), rem), num)
NonAdj == WellFormed(s) /\ NonAdjacent(s)
Accepted == Ended => IF form = "places" THEN GoodPlaces(num, limit, s) ELSE GoodFixed(num, limit, s)
\* strings of the same shape that the judges would accept as well
Shape == Len(Only(s))
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE {Append(t, d) : t \in Strings(n - 1), d \in Digits}
WithPoint(d) == LET p == Behind(s) IN
    IF p = 0 THEN d ELSE SubSeq(d, 1, Len(d) - p) \o <<POINT>> \o SubSeq(d, Len(d) - p + 1, Len(d))
Forced == Ended /\ Shape <= Sequel /\ form = "fixed" =>
    \A d \in Strings(Shape) : GoodFixed(num, limit, WithPoint(d)) => d = Only(s)
Close == Ended /\ Shape <= Sequel /\ form = "places" =>
    \A d \in Strings(Shape) : GoodPlaces(num, limit, WithPoint(d)) =>
        RLe(RAbs(RSub(Value(WithPoint(d)), Value(s))), RPow2(0 - limit))
Ends == Len(s) <= MaxM + MaxPlaces + 20
Emit == Ended => PrintT("@@" \o ToJson(<<RShow(num), form, limit>>))
=============================================================================
