-------------------------------- MODULE Posy --------------------------------
(***************************************************************************)
(* Monomials and posynomials, the functions of geometric programming:      *)
(*     f(x) = c x_1^a_1 ... x_n^a_n,        c > 0                          *)
(* and sums of these, held in registers with value semantics.  A register  *)
(* is a sequence of terms [c, a]; what counts is the function it stands    *)
(* for, seen in log scale: log f(exp y) and its gradient.                  *)
(***************************************************************************)
EXTENDS Rat

VARIABLES
    n,       \* the number of variables
    mono,    \* registers 1, 2: a term
    posy     \* registers 1, 2: a nonempty sequence of terms

B == 200
Term(c, a) == [c |-> c, a |-> a]
One(d) == Term(1, VZero(d))
TTimes(s, t) == Term(RMul(s.c, t.c), VAdd(s.a, t.a))
TOver(s, t) == Term(RRound(RDiv(s.c, t.c), B), VSub(s.a, t.a))
TScale(s, k) == Term(RMul(s.c, k), s.a)
TShrink(s, k) == Term(RRound(RDiv(s.c, k), B), s.a)
TRoot(s) == Term(RRound(RSqrt(s.c), B), VScale("1/2", s.a))

Begin(d) == /\ n' = d /\ mono' = <<One(d), One(d)>> /\ posy' = << <<One(d)>>, <<One(d)>> >>
Init0 == n = 1 /\ mono = <<One(1), One(1)>> /\ posy = << <<One(1)>>, <<One(1)>> >>

\* r: the register it is done to; q: the other operand; k: a number > 0; a: exponents
MonoOps == {"make", "constant", "one", "times", "over", "scale", "shrink", "invert", "root", "coeff", "copy"}
MonoOp(op, r, q, k, a) ==
    /\ UNCHANGED <<n, posy>>
    /\ mono' = [mono EXCEPT ![r] =
         CASE op = "make" -> Term(k, a)
           [] op = "constant" -> Term(k, VZero(n))
           [] op = "one" -> One(n)
           [] op = "times" -> TTimes(mono[r], mono[q])
           [] op = "over" -> TOver(mono[r], mono[q])
           [] op = "scale" -> TScale(mono[r], k)
           [] op = "shrink" -> TShrink(mono[r], k)
           [] op = "invert" -> TOver(Term(k, VZero(n)), mono[r])
           [] op = "root" -> TRoot(mono[r])
           [] op = "coeff" -> Term(k, mono[r].a)
           [] op = "copy" -> mono[q]]

\* q: a monomial register for "from", "addm", "timesm", "overm" and "sum"; i: which of its own terms
PosyOps == {"from", "ones", "addm", "sum", "addp", "timesm", "overm", "timesown", "overown", "scale", "shrink", "product", "copy"}
Each(s, F(_)) == [j \in DOMAIN s |-> F(s[j])]
Product(s, t) == [k \in 1..(Len(s) * Len(t)) |-> TTimes(s[((k - 1) \div Len(t)) + 1], t[((k - 1) % Len(t)) + 1])]
PosyOp(op, r, q, k, i) ==
    /\ UNCHANGED <<n, mono>>
    /\ posy' = [posy EXCEPT ![r] =
         CASE op = "from" -> <<mono[q]>>
           [] op = "ones" -> [j \in 1..i |-> One(n)]
           [] op = "addm" -> Append(posy[r], mono[q])
           [] op = "sum" -> <<mono[q], mono[3 - q]>>
           [] op = "addp" -> posy[r] \o posy[q]
           [] op = "timesm" -> [j \in DOMAIN posy[r] |-> TTimes(posy[r][j], mono[q])]
           [] op = "overm" -> [j \in DOMAIN posy[r] |-> TOver(posy[r][j], mono[q])]
           [] op = "timesown" -> [j \in DOMAIN posy[r] |-> TTimes(posy[r][j], posy[r][i])]
           [] op = "overown" -> [j \in DOMAIN posy[r] |-> TOver(posy[r][j], posy[r][i])]
           [] op = "scale" -> [j \in DOMAIN posy[r] |-> TScale(posy[r][j], k)]
           [] op = "shrink" -> [j \in DOMAIN posy[r] |-> TShrink(posy[r][j], k)]
           [] op = "product" -> Product(posy[r], posy[q])
           [] op = "copy" -> posy[q]]
NeedsOwn(op, r, i) == op \in {"timesown", "overown"} => i \in DOMAIN posy[r]

-----------------------------------------------------------------------------
\* In log scale: the logarithm of each term at y, of the sum, and its gradient,
\* the mean of the exponents weighed with the terms
LogTerm(t, y) == RRound(RAdd(RLog(t.c), VDot(t.a, y)), B)
LogTerms(s, y) == [j \in DOMAIN s |-> LogTerm(s[j], y)]
Top(L) == RMaxSeq(L)
Scaled(L) == LET top == Top(L) IN [j \in DOMAIN L |-> RRound(RExp(RRound(RSub(L[j], top), B)), B)]
\* E: Scaled(L)
ValueOf(L, E) == IF Len(L) = 1 THEN L[1] ELSE RAdd(Top(L), RLog(RSumSeq(E)))
GradientOf(s, E, d) == LET sum == RSumSeq(E) IN [m \in 1..d |-> RRound(RDiv(VDot(E, [j \in DOMAIN s |-> s[j].a[m]]), sum), B)]

\* The function itself where the exponents are whole numbers
IPow(x, e) == IF e >= 0 THEN RPow(x, e) ELSE RDiv(1, RPow(x, 0 - e))
RECURSIVE PowProd(_, _, _)
PowProd(x, a, m) == IF m = 0 THEN 1 ELSE RMul(IPow(x[m], a[m]), PowProd(x, a, m - 1))
Whole(t) == \A m \in DOMAIN t.a : REq(t.a[m], RFloor(t.a[m]))
At(t, x) == RMul(t.c, PowProd(x, t.a, Len(t.a)))
ValueAt(s, x) == RSumSeq([j \in DOMAIN s |-> At(s[j], x)])
=============================================================================
