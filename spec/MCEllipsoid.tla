---------------------------- MODULE MCEllipsoid ----------------------------
(* Histories of cuts on the plane, in exact arithmetic: no point is lost, the
   space stays an ellipsoid and shrinks at every cut.  Printed as scripts of
   (direction, near, far) with the sides in units of tau. *)
EXTENDS Ellipsoid, TLC, Json

CONSTANTS Depth, Menu, Dirs

VARIABLES script, vol

\* quarters: near -> far (99: none)
Single == <<<<0, 99>>, <<2, 99>>, <<0-1, 99>>, <<0-3, 99>>, <<5, 99>>, <<0-2, 99>>, <<4, 99>>>>
Pairs == <<<<0, 1>>, <<0, 3>>, <<1, 3>>, <<2, 3>>, <<0-1, 1>>, <<0-1, 3>>, <<0-3, 1>>, <<0-3, 3>>, <<0-2, 0-1>>, <<0-1, 5>>, <<1, 5>>,
           <<0-5, 1>>, <<0-5, 0-2>>, <<3, 1>>, <<1, 0-1>>, <<5, 6>>, <<0-6, 0-5>>,
           \* sides that just touch the space
           <<4, 5>>, <<4, 4>>, <<0-5, 0-4>>, <<0, 4>>, <<0-4, 1>>, <<0-4, 4>>>>
SinglesAndPairs == Single \o Pairs
TwoDirs == <<<<1, 0>>, <<3, 4>>>>
FourDirs == <<<<1, 0>>, <<3, 4>>, <<0-1, 2>>, <<0, 0-1>>>>

Start == [x |-> <<0, 0>>, P |-> <<<<1, 0>>, <<0, 1>>>>, par |-> TRUE]
Samples == <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<0-1, 0>>, <<0, 0-1>>, <<RDiv(3, 5), RDiv(4, 5)>>, <<RDiv(-3, 5), RDiv(4, 5)>>,
             <<RDiv(5, 13), RDiv(-12, 13)>>, <<RDiv(-4, 5), RDiv(-3, 5)>>, <<RDiv(1, 2), 0>>, <<0, RDiv(-1, 2)>>,
             <<RDiv(-1, 4), RDiv(1, 4)>>, <<RDiv(1, 8), RDiv(1, 3)>>, <<RDiv(-2, 5), RDiv(-1, 2)>>, <<RDiv(12, 13), RDiv(5, 13)>>>>

MInit == EInit /\ script = <<>> /\ vol = 1
MNext ==
    \/ spaces = <<>> /\ EBegin(<<Start>>, Samples) /\ UNCHANGED <<script, vol>>
    \/ /\ spaces # <<>> /\ Len(script) < Depth /\ ~Point(1)
       /\ \E d \in DOMAIN Dirs, c \in DOMAIN Menu, v \in {"success", "noeffect", "nosoln"} :
            LET g == Dirs[d]
                tau == RSqrt(Size(spaces[1].P, g))
                b0 == RMul(tau, RDiv(Menu[c][1], 4))
                b1 == IF Menu[c][2] = 99 THEN None ELSE RMul(tau, RDiv(Menu[c][2], 4))
            IN  /\ Cut(1, g, b0, b1, tau, v)
                /\ script' = Append(script, <<g, Menu[c][1], Menu[c][2], v>>)
                /\ vol' = MDet(spaces'[1].P)
                /\ Assert(v # "success" \/ RLt(vol', vol), <<"does not shrink", script'>>)
                /\ Assert(v # "nosoln" \/ KeptPoints(1, g, b0, b1) = <<>>, <<"solutions denied", script'>>)
                /\ Assert(v # "noeffect" \/ RLe(Margin(2, LowOf(1, tau, b1), High(tau, b0)), 0), <<"effect denied", script'>>)

MView == <<spaces = <<>>, script>>
MSpec == MInit /\ [][MNext]_<<evars, script, vol>>

Properties == NeverLost(RPow10(-40)) /\ PositiveDefinite
\* every cut has exactly one verdict
OneVerdict == (spaces # <<>> /\ Len(script) < Depth /\ ~Point(1)) =>
    \A d \in DOMAIN Dirs, c \in DOMAIN Menu :
        LET tau == RSqrt(Size(spaces[1].P, Dirs[d]))
            b1 == IF Menu[c][2] = 99 THEN None ELSE RMul(tau, RDiv(Menu[c][2], 4))
            w == Verdict(2, LowOf(1, tau, b1), High(tau, RMul(tau, RDiv(Menu[c][1], 4))), 0)
        IN  \E v \in w : w = {v}
Emit == (Len(script) = Depth \/ (script # <<>> /\ Point(1))) => PrintT("@@" \o ToJson(<<0, [i \in DOMAIN script |-> <<script[i][1][1], script[i][1][2], script[i][2], script[i][3]>>]>>))
=============================================================================
