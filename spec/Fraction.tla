------------------------------ MODULE Fraction ------------------------------
(***************************************************************************)
(* A few registers that hold rational numbers, and everything that can be  *)
(* done with them.  A register shows its number as numerator and           *)
(* denominator in lowest terms, the denominator positive.                  *)
(***************************************************************************)
EXTENDS Rat, TLC

VARIABLES val      \* register -> rational

\* a, b: registers; z: an integer
Unary == {"neg", "abs", "rec", "copy"}
Binary == {"add", "sub", "mul", "div"}
Compound == {"iadd", "isub", "imul", "idiv"}
WithInt == {"addz", "subz", "mulz", "divz", "iaddz", "isubz", "imulz", "idivz", "zadd", "zsub", "zmul",
            "litadd", "litsub", "litmul"}            \* z on the left; the same with a literal
OwnPart == {"imuln", "imuld", "idivn", "idivd"}      \* combined with its own numerator or denominator
Ops == Unary \cup Binary \cup Compound \cup WithInt \cup OwnPart

Sum(x, y) == RAdd(x, y)
Result(op, x, y, z) ==
    CASE op = "neg" -> RNeg(x)
      [] op = "abs" -> RAbs(x)
      [] op = "rec" -> RDiv(1, x)
      [] op = "copy" -> x
      [] op \in {"add", "iadd"} -> RAdd(x, y)
      [] op \in {"sub", "isub"} -> RSub(x, y)
      [] op \in {"mul", "imul"} -> RMul(x, y)
      [] op \in {"div", "idiv"} -> RDiv(x, y)
      [] op \in {"addz", "iaddz", "zadd", "litadd"} -> RAdd(x, z)
      [] op \in {"subz", "isubz"} -> RSub(x, z)
      [] op \in {"mulz", "imulz", "zmul", "litmul"} -> RMul(x, z)
      [] op \in {"divz", "idivz"} -> RDiv(x, z)
      [] op \in {"zsub", "litsub"} -> RSub(z, x)
      [] op = "imuln" -> RMul(x, RNumer(x))
      [] op = "imuld" -> RMul(x, RDenom(x))
      [] op = "idivn" -> RDiv(x, RNumer(x))
      [] op = "idivd" -> RDiv(x, RDenom(x))
      [] OTHER -> "nan"

Shows(x, num, den) == REq(num, RNumer(x)) /\ REq(den, RDenom(x))

FInit == val = <<>>
Make(i, num, den) == ~REq(den, 0) /\ val' = (i :> RDiv(num, den)) @@ val
Apply(op, dst, a, b, z) ==
    LET x == Result(op, val[a], val[b], z)
    IN  RIsNum(x) /\ val' = [val EXCEPT ![dst] = x]

\* the answers to <, <=, >, >=, ==, != on numbers x, y
Order(x, y) == <<RLt(x, y), RLe(x, y), RLt(y, x), RLe(y, x), REq(x, y), ~REq(x, y)>>
=============================================================================
