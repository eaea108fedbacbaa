------------------------------ MODULE MCEll1d ------------------------------
(* All histories of dyadic cuts of the interval [-2, 6]; sides in quarters of
   the half-width, 4 being the end point. *)
EXTENDS Ell1d, TLC, Json

CONSTANTS Depth
VARIABLE script

Menu == <<0, 1, 2, 0-1, 0-3, 4, 5, 0-4, 0-5>>
Slopes == <<1, 0-2>>

MInit == IInit /\ script = <<>>
MNext ==
    \/ lo0 = hi0 /\ IBegin(0-2, 6) /\ UNCHANGED script
    \/ /\ lo0 # hi0 /\ Len(script) < Depth /\ ~REq(lo, hi)
       /\ \E s \in DOMAIN Slopes, c \in DOMAIN Menu, v \in {"success", "noeffect", "nosoln"} :
            LET g == Slopes[s]
                beta == RDiv(RMul(RMul(RAbs(g), Radius), Menu[c]), 4)
            IN  /\ v \in Verdict(g, beta, Centre, 0)
                /\ ICut(g, beta, Centre, v)
                /\ script' = Append(script, <<g, Menu[c], v>>)
                /\ Assert(v # "success" \/ RLt(RSub(hi', lo'), RSub(hi, lo)), "does not shrink")
MSpec == MInit /\ [][MNext]_<<ivars, script>>
MView == <<lo0 = hi0, script>>

Properties == NotEmpty /\ \A k \in 0..70 : ExactlyTheCuts(RAdd(0-3, RDiv(k, 7)))
OneVerdict == lo0 # hi0 => \A s \in DOMAIN Slopes, c \in DOMAIN Menu :
    \/ REq(lo, hi)
    \/ LET w == Verdict(Slopes[s], RDiv(RMul(RMul(RAbs(Slopes[s]), Radius), Menu[c]), 4), Centre, 0)
       IN  \E v \in w : w = {v}
Emit == (Len(script) = Depth \/ (script # <<>> /\ REq(lo, hi))) =>
    PrintT("@@" \o ToJson(<<0, [i \in DOMAIN script |-> <<script[i][1], script[i][2]>>]>>))
=============================================================================
