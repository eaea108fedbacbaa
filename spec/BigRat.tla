------------------------------ MODULE BigRat ------------------------------
(***************************************************************************)
(* Exact rational arithmetic for TLC.                                      *)
(*                                                                         *)
(* TLC's integers are 32 bits wide and it has no reals; the numeric parts  *)
(* of this specification are decided on rationals of unbounded size.  All  *)
(* operators here are overridden by java/BigRat.java (same name, on TLC's  *)
(* class path); the bodies below never run.  A number is an integer or a   *)
(* string, "n/d" in hexadecimal, or a decimal literal that stands for      *)
(* exactly the double it denotes.  Whatever is not a finite number acts as *)
(* "nan": arithmetic gives "nan", every comparison is FALSE.               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL Missing == Assert(FALSE, "BigRat.class is not on the class path")

RNum(a) == Missing          \* canonical form
RIsNum(a) == Missing        \* a finite number?
RAdd(a, b) == Missing
RSub(a, b) == Missing
RMul(a, b) == Missing
RDiv(a, b) == Missing       \* "nan" when b is 0
RNeg(a) == Missing
RAbs(a) == Missing
RLe(a, b) == Missing
RLt(a, b) == Missing
REq(a, b) == Missing
RMax(a, b) == Missing
RMin(a, b) == Missing
RSign(a) == Missing         \* -1, 0, 1 (0 for "nan")
RPow2(k) == Missing         \* 2^k, k any integer
RPow10(k) == Missing        \* 10^k
RFloor(a) == Missing
RNumer(a) == Missing        \* numerator in lowest terms
RDenom(a) == Missing
RRound(a, bits) == Missing  \* nearest number with that many significant bits
RSqrt(a) == Missing         \* exact for squares, else to 200 bits
RExp(a) == Missing          \* to about 50 digits
RLog(a) == Missing
RShow(a) == Missing         \* decimal, for messages and scenario files
VDot(u, v) == Missing
VAdd(u, v) == Missing
VSub(u, v) == Missing
VScale(k, v) == Missing
MVec(m, v) == Missing
MTrans(m) == Missing
MMul(a, b) == Missing
MAdd(a, b) == Missing
MScale(k, a) == Missing
MRound(a, bits) == Missing
MPosDef(a) == Missing       \* symmetric matrix: all pivots positive
MDet(a) == Missing
MSolve(a, v) == Missing     \* the x with a x = v
MInv(a) == Missing
=============================================================================
