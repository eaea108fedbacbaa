------------------------------ MODULE MCClassic ------------------------------
(* All behaviours of the classic searches up to a limit.                     *)
EXTENDS ClassicSearch, TLC, Json
CONSTANTS Limits, Kinds
Lt(a, b) == a < b
Sum(a, b) == a + b
Answers == {[ok |-> o, f |-> f, x |-> 50 + Len(hist), ahead |-> d] : o \in BOOLEAN, f \in 1..2, d \in (IF kind = "discrete" THEN {0, 3} ELSE {0})}
MNext ==
    \/ hist = <<>> /\ cpc = "idle" /\ \E k \in Kinds, m \in Limits : SBegin(k, m, 0)
    \/ cpc = "ask" /\ Len(hist) < most /\ \E a \in Answers : SAsk(mid, a)
    \/ cpc = "cut" /\ \E v \in {"cut", "nosolution", "noeffect"}, still \in BOOLEAN :
         /\ (kind = "algo" => v = "cut") /\ (v # "cut" => still)      \* a refused cut moves nothing
         /\ SCut(v, still, IF still THEN mid ELSE mid + 1)
    \/ \E s \in {"found", "notfound", "limit"} : SDone(s)
MSpec == SInit /\ [][MNext]_cvars
Promises == BestOfAll /\ Bounded /\ StopsRight /\ EndsRight
Steps == [i \in DOMAIN hist |-> <<hist[i].a.ok, hist[i].a.f, hist[i].a.ahead, hist[i].verdict, hist[i].still>>]
Emit == cpc = "idle" /\ hist # <<>> => PrintT("@@" \o ToJson(<<kind, most, Steps>>))
=============================================================================
