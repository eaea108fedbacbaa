-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Derived operators on the rationals of BigRat, and their self test: an   *)
(* error in the arithmetic would make every verdict worthless, so each TLC *)
(* run that uses it evaluates SelfTest first (as an ASSUME).               *)
(***************************************************************************)
EXTENDS BigRat, Integers, Sequences

RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)
RSq(a) == RMul(a, a)
RSum3(a, b, c) == RAdd(RAdd(a, b), c)
\* |a - b| <= tol * scale
RWithin(a, b, tol, scale) == RLe(RAbs(RSub(a, b)), RMul(tol, scale))
\* relative closeness, absolute near zero
RClose(a, b, tol) == RWithin(a, b, tol, RMax(1, RMax(RAbs(a), RAbs(b))))
\* purely relative closeness
RRel(a, b, tol) == RWithin(a, b, tol, RMax(RAbs(a), RAbs(b)))

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN 1 ELSE RMul(a, RPow(a, k - 1))

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSumSeq(Tail(s)))

RECURSIVE RMaxSeq(_)
RMaxSeq(s) == IF Len(s) = 1 THEN RNum(s[1]) ELSE RMax(s[1], RMaxSeq(Tail(s)))

VZero(n) == [i \in 1..n |-> 0]
VUnit(n, k) == [i \in 1..n |-> IF i = k THEN 1 ELSE 0]
MDiag(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE 0]]
MOuter(u, v) == [i \in 1..Len(u) |-> [j \in 1..Len(v) |-> RMul(u[i], v[j])]]
MQuad(m, v) == VDot(v, MVec(m, v))
VIsNum(v) == \A i \in DOMAIN v : RIsNum(v[i])
MIsNum(m) == \A i \in DOMAIN m : VIsNum(m[i])

SelfTest ==
    /\ REq(RAdd("1/3", "1/6"), "1/2")                      \* a third + a sixth
    /\ REq(RSub("0.5", 1), "-0.5")
    /\ REq(RMul(65536, 65536), RPow2(32))                  \* past 32 bits
    /\ REq(RDiv(RPow10(20), RPow10(22)), RDiv(1, 100))
    /\ ~REq("0.1", RDiv(1, 10))                            \* 0.1 is a double
    /\ RWithin("0.1", RDiv(1, 10), RPow2(-56), 1)
    /\ RNeg(RNeg("-2.5")) = RNum("-2.5")
    /\ RLt("-1e-300", 0) /\ RLe(0, "-0") /\ ~RLt(0, "-0")
    /\ ~RLe("nan", 0) /\ ~RLe(0, "nan") /\ ~REq("nan", "nan") /\ ~RLe("inf", 1)
    /\ ~RIsNum("-inf") /\ ~RIsNum(RDiv(1, 0)) /\ RIsNum("1e308")
    /\ REq(RSqrt(RDiv(9, 16)), RDiv(3, 4))
    /\ RWithin(RSq(RSqrt(2)), 2, RPow2(-180), 1)
    /\ RWithin(RExp(1), "2.7182818284590451", RPow2(-50), 1)
    /\ RWithin(RLog(RExp("1.25")), "1.25", RPow10(-40), 1)
    /\ RWithin(RExp(RLog(10)), 10, RPow10(-40), 1)
    /\ REq(RFloor(RDiv(-1, 2)), -1) /\ REq(RFloor(RDiv(7, 2)), 3)
    /\ REq(RNumer(RDiv(-6, 4)), -3) /\ REq(RDenom(RDiv(-6, 4)), 2)
    /\ REq(RRound(RDiv(1, 3), 2), RDiv(3, 8)) \/ REq(RRound(RDiv(1, 3), 2), RDiv(1, 4))
       \/ REq(RRound(RDiv(1, 3), 2), RDiv(5, 16))
    /\ RWithin(RRound(RDiv(1, 3), 64), RDiv(1, 3), RPow2(-64), 1)
    /\ REq(VDot(<<1, "0.5">>, <<4, 2>>), 5)
    /\ MVec(<<<<1, 2>>, <<3, 4>>>>, <<1, 1>>) = <<3, 7>>
    /\ MMul(<<<<1, 2>>, <<3, 4>>>>, <<<<0, 1>>, <<1, 0>>>>) = <<<<2, 1>>, <<4, 3>>>>
    /\ MTrans(<<<<1, 2, 3>>, <<4, 5, 6>>>>) = <<<<1, 4>>, <<2, 5>>, <<3, 6>>>>
    /\ MPosDef(<<<<2, 1>>, <<1, 2>>>>) /\ ~MPosDef(<<<<1, 1>>, <<1, 1>>>>)
    /\ ~MPosDef(<<<<0, 1>>, <<1, 0>>>>) /\ ~MPosDef(<<<<1, 2>>, <<2, 1>>>>)
    /\ REq(MDet(<<<<0, 1>>, <<1, 0>>>>), -1) /\ REq(MDet(<<<<2, 1>>, <<1, 2>>>>), 3)
    /\ MSolve(<<<<0, 2>>, <<1, 0>>>>, <<4, 3>>) = <<3, 2>>
    /\ MMul(MInv(<<<<0, 2>>, <<1, 1>>>>), <<<<0, 2>>, <<1, 1>>>>) = <<<<1, 0>>, <<0, 1>>>>
    /\ ~RIsNum(MInv(<<<<1, 1>>, <<1, 1>>>>)[1][1])
    /\ ~RIsNum(MSolve(<<<<1, 1>>, <<1, 1>>>>, <<1, 1>>)[1])
=============================================================================
