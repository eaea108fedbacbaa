------------------------------- MODULE MCLmi -------------------------------
(* Problems over menus of coefficient matrices, every point of a grid.     *)
EXTENDS Lmi, TLC, Json, SequencesExt
CONSTANTS Forms, Coef, Const, Levels, Points, NVar

S(a, b, c) == <<<<a, b>>, <<b, c>>>>
C2 == {S(1, 0, 1), S(1, 2, 0), S(0, 1, 0), S(2, 0-1, 0-1), S(0-1, 0, 3), S(0, 0, 0), S(0-1, 1, 1)}
B2 == {S(4, 1, 2), S(1, 0-1, 3), S(1, 0, 0), S(0-2, 0, 1)}
C3 == {<<<<1, 0, 1>>, <<0, 0, 0-1>>, <<1, 0-1, 2>>>>, <<<<0, 2, 0>>, <<2, 1, 0>>, <<0, 0, 0-1>>>>,
       <<<<0-1, 0, 0>>, <<0, 0-2, 1>>, <<0, 1, 0>>>>, <<<<2, 1, 0>>, <<1, 2, 0>>, <<0, 0, 0>>>>}
B3 == {<<<<4, 1, 0>>, <<1, 4, 1>>, <<0, 1, 4>>>>, <<<<1, 1, 0>>, <<1, 2, 1>>, <<0, 1, 1>>>>}
\* rectangular and unsymmetric
C12 == {<<<<1, 0-2>>>>, <<<<0, 1>>>>, <<<<3, 1>>>>}
B12 == {<<<<1, 1>>>>, <<<<0, 0>>>>, <<<<2, 0-1>>>>}
C21 == {<<<<1>>, <<2>>>>, <<<<0-1>>, <<0>>>>, <<<<0>>, <<1>>>>}
B21 == {<<<<1>>, <<0-1>>>>, <<<<0>>, <<0>>>>}
C22 == {<<<<1, 2>>, <<0, 1>>>>, <<<<0, 1>>, <<0-1, 0>>>>, <<<<0, 0>>, <<3, 0>>>>, <<<<1, 1>>, <<1, 0-1>>>>}
B22 == {<<<<1, 0>>, <<0, 1>>>>, <<<<0, 2>>, <<1, 0>>>>, <<<<0, 0>>, <<0, 0>>>>}
C32 == {<<<<1, 0>>, <<0, 2>>, <<0-1, 1>>>>, <<<<0, 1>>, <<1, 0>>, <<2, 0>>>>, <<<<1, 1>>, <<0, 0>>, <<0, 1>>>>}
B32 == {<<<<1, 0>>, <<0, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<2, 0>>, <<0, 0>>>>}
L1 == {0}
L3 == {0-1, 0, 1, 4}
L5 == {0, 2, 9}
P2 == {0-1, 0, 2} \X {0-1, 0, 1}
G2 == {0-2, 0-1, 0, 1, 3} \X {0-2, 0-1, 0, 1, 2}

P3 == {0-1, 1} \X {0-1, 0, 1} \X {0, 2}
P2t == ((0-2)..2) \X ((0-2)..2)
G2t == ((0-3)..3) \X ((0-3)..3)
G3 == ((0-1)..2) \X ((0-1)..2) \X ((0-1)..2)

MInit == OInit
MNext == \/ /\ prob.form = "none"
            /\ \E fm \in Forms, F \in [1..NVar -> Coef], b \in Const :
                    OBegin([form |-> fm, F |-> F, F0 |-> IF fm = "plus" THEN <<>> ELSE b])
         \/ prob.form # "none" /\ \E x \in Points, t \in Levels : OAsk(x, t)
         \/ ORow
MSpec == MInit /\ [][MNext]_ovars
NeverStuck == fpc = "rows" => ENABLED ORow
Emit == (prob.form # "none" /\ fpc = "idle") =>
            PrintT("@@" \o ToJson(<<prob.form, prob.F, prob.F0, SetToSeq(Levels), SetToSeq(Points)>>))
=============================================================================
