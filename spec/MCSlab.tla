------------------------------- MODULE MCSlab -------------------------------
(* The formula Smallest is what its name says: for every slab on a grid and
   every dimension, the ellipsoid contains the slab, and no ellipsoid of a grid
   of alternatives that contains (sample points of) the slab is smaller. *)
EXTENDS Rat, TLC

CONSTANTS MaxN, Steps, Fine

E == INSTANCE Ellipsoid WITH spaces <- <<>>, points <- <<>>

VARIABLES n, lo, hi, stage

Grid == 0 .. 2 * Steps
At(i) == RDiv(i - Steps, Steps)
Init == n \in 2..MaxN /\ lo \in Grid /\ hi \in Grid /\ lo < hi /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<n, lo, hi>>
Spec == Init /\ [][Next]_<<n, lo, hi, stage>>

Eps == RPow10(-40)
Cuts == RLt(0, E!Margin(n, At(lo), At(hi)))
K == E!Smallest(n, At(lo), At(hi))

\* (u - c)^2 / along + (1 - u^2) / across at u, on the boundary of the ball
Form(c, along, across, u) ==
    RAdd(RDiv(RSq(RSub(u, c)), along), RDiv(RSub(1, RSq(u)), across))
Vol2(along, across) == RMul(along, RPow(across, n - 1))

Contains == stage = 1 /\ Cuts => LET k == K IN \A i \in 0..16 :
    LET u == RAdd(At(lo), RMul(RSub(At(hi), At(lo)), RDiv(i, 16)))
    IN  RLe(Form(k.centre, RMul(k.s, k.across), k.across, u), RAdd(1, Eps))
Shrinks == stage = 1 /\ Cuts => LET k == K IN RLt(Vol2(RMul(k.s, k.across), k.across), 1) /\ RLt(0, k.s) /\ RLt(k.s, 1)
\* An ellipsoid with this centre and squared half axis along u that contains the
\* point at height u, and the whole ring of points of the ball there, is at least
\* this large: some sample point of the slab shows that it is no improvement.
Point(i) == RAdd(At(lo), RMul(RSub(At(hi), At(lo)), RDiv(i, 16)))
NoBetter(c, along, vol) ==
    \E i \in 0..16 :
        LET u == Point(i)
            room == RSub(1, RDiv(RSq(RSub(u, c)), along))
            ring == RSub(1, RSq(u))
        IN  \/ RLt(room, 0)
            \/ RSign(room) = 0 /\ RSign(ring) # 0
            \/ RLt(0, room) /\ RLe(RSub(vol, Eps), Vol2(along, RDiv(ring, room)))
Minimal == stage = 1 =>
    LET k == IF Cuts THEN K ELSE [centre |-> 0, s |-> 1, across |-> 1]
        c0 == k.centre
        along0 == RMul(k.s, k.across)
        vol == Vol2(along0, k.across)
    IN  \A i \in 0..2*Fine, j \in 1..2*Fine :
            NoBetter(RAdd(c0, RDiv(i - Fine, 2 * Fine)), RMul(along0, RSq(RDiv(j, Fine))), vol)
=============================================================================
