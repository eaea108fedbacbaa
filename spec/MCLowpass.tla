----------------------------- MODULE MCLowpass -----------------------------
EXTENDS Lowpass, TLC, Json
CONSTANTS Specs, Bests, Points, Depth
VARIABLES hist
Sp(p, s, r, lo, hi) == [Ap |-> p, As |-> s, Anr |-> r, L |-> lo, U |-> hi]
S2 == {Sp(<<<<1, 2>>, <<1, 1>>>>, <<<<1, 0>>, <<1, 0-1>>>>, <<<<1, 0-2>>>>, 1, 4),
       Sp(<<<<1, 2>>>>, <<<<1, 0>>, <<1, 0-1>>, <<2, 0-1>>>>, <<<<1, 1>>, <<0, 1>>>>, 2, 3),
       Sp(<<<<1, 1>>, <<2, 1>>, <<1, 0>>>>, <<<<1, 0-2>>>>, <<<<1, 1>>>>, 0-1, 2)}
S3 == S2 \cup {Sp(<<<<1, 2>>, <<1, 1>>>>, <<<<1, 0-1>>, <<0, 1>>>>, <<>>, 1, 2)}
P2 == {0-1, 0, 1, 2} \X {0-1, 0, 1, 2}
P2s == {0-1, 0, 1, 2} \X {0-1, 0, 1}
G2 == {0-1, 0, 1, 2, 3} \X {0-2, 0-1, 0, 1, 2}
B1 == {1, 5}
MInit == LInit /\ hist = <<>>
MNext == \/ spec.As = <<>> /\ \E s \in Specs, b \in Bests : LBegin(s, b) /\ hist' = <<b>>
         \/ spec.As # <<>> /\ Len(hist) <= Depth /\ \E y \in Points : LAsk(y) /\ hist' = Append(hist, y)
MSpec == MInit /\ [][MNext]_<<lvars, hist>>
\* wherever the searches start, the same points improve
SameFromAnyRotation == said.kind # "none" =>
    LET b == IF said.kind = "improved" THEN said.f[2] ELSE best
    IN  said.kind = "improved" => \A p \in 0..(Len(spec.Ap)-1), s \in 0..(Len(spec.As)-1) :
            FirstIn(Pass(spec), p, x) = 0 /\ FirstIn(Stop(spec, b), s, x) = 0
NeverStuck == (spec.As # <<>> /\ Len(hist) <= Depth) => \A y \in Points : ENABLED LAsk(y)
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson(<<spec.Ap, spec.As, spec.Anr, spec.L, spec.U, hist[1], [k \in 1..Depth |-> hist[k + 1]]>>))
=============================================================================
