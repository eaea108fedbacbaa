----------------------------- MODULE MCFraction -----------------------------
(* Scripts of operations on two registers, and beside them the same done on
   pairs of integers by cross multiplication and division by the greatest
   common divisor: both must show the same pairs and the same order. *)
EXTENDS Fraction, Json

CONSTANTS Depth, Starts, Zs

VARIABLES pair, script
StartsQ == {<<1, 2, 0-3, 4>>, <<0, 1, 6, 0-4>>, <<0-5, 3, 2, 3>>, <<4, 1, 1, 6>>}
StartsT == StartsQ \cup {<<0-2, 0-6, 9, 12>>, <<7, 5, 0-7, 5>>, <<1, 1, 0, 3>>, <<0-1, 4, 4, 0-1>>}
ZsQ == {0-2, 0, 3}
ZsT == {0-6, 0-2, 0-1, 0, 1, 3, 4}

AbsI(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN AbsI(x) ELSE Gcd(AbsI(y), AbsI(x) % AbsI(y))
Div(x, y) == IF x >= 0 THEN x \div y ELSE 0 - ((0 - x) \div y)
Norm(p) == LET g == Gcd(p[1], p[2]) s == IF p[2] < 0 THEN 0 - 1 ELSE 1
           IN  <<s * Div(p[1], g), s * Div(p[2], g)>>
PAdd(p, q) == Norm(<<p[1] * q[2] + p[2] * q[1], p[2] * q[2]>>)
PNeg(p) == <<0 - p[1], p[2]>>
PMul(p, q) == Norm(<<p[1] * q[1], p[2] * q[2]>>)
PInv(p) == Norm(<<p[2], p[1]>>)
PResult(op, p, q, z) ==
    CASE op = "neg" -> PNeg(p)
      [] op = "abs" -> <<AbsI(p[1]), p[2]>>
      [] op = "rec" -> PInv(p)
      [] op = "copy" -> p
      [] op \in {"add", "iadd"} -> PAdd(p, q)
      [] op \in {"sub", "isub"} -> PAdd(p, PNeg(q))
      [] op \in {"mul", "imul"} -> PMul(p, q)
      [] op \in {"div", "idiv"} -> PMul(p, PInv(q))
      [] op \in {"addz", "iaddz", "zadd", "litadd"} -> PAdd(p, <<z, 1>>)
      [] op \in {"subz", "isubz"} -> PAdd(p, <<0 - z, 1>>)
      [] op \in {"mulz", "imulz", "zmul", "litmul"} -> PMul(p, <<z, 1>>)
      [] op \in {"divz", "idivz"} -> PMul(p, PInv(<<z, 1>>))
      [] op \in {"zsub", "litsub"} -> PAdd(PNeg(p), <<z, 1>>)
      [] op = "imuln" -> PMul(p, <<p[1], 1>>)
      [] op = "imuld" -> PMul(p, <<p[2], 1>>)
      [] op = "idivn" -> PMul(p, PInv(<<p[1], 1>>))
      [] op = "idivd" -> PMul(p, PInv(<<p[2], 1>>))
Defined(op, p, q, z) ==
    /\ op \in {"rec", "idivn"} => p[1] # 0
    /\ op \in {"div", "idiv"} => q[1] # 0
    /\ op \in {"divz", "idivz"} => z # 0
    /\ op \in WithInt \/ z = 0                       \* only one z for the rest

MInit == /\ \E s \in Starts : /\ val = (1 :> RDiv(s[1], s[2])) @@ (2 :> RDiv(s[3], s[4]))
                              /\ pair = <<Norm(<<s[1], s[2]>>), Norm(<<s[3], s[4]>>)>>
                              /\ script = <<s>>
MNext == \E op \in Ops, z \in Zs \cup {0} :
    /\ Len(script) <= Depth
    /\ Defined(op, pair[1], pair[2], z)
    /\ \E dst \in (IF op \in Binary THEN {1, 2} ELSE {1}) :
        /\ Apply(op, dst, 1, 2, z)
        /\ pair' = [pair EXCEPT ![dst] = PResult(op, pair[1], pair[2], z)]
        /\ script' = Append(script, <<op, dst, 1, 2, z>>)
MSpec == MInit /\ [][MNext]_<<val, pair, script>>

Canonical == \A i \in 1..2 : pair[i][2] > 0 /\ Gcd(pair[i][1], pair[i][2]) = 1
ShowsPairs == \A i \in 1..2 : Shows(val[i], pair[i][1], pair[i][2])
OrderAgrees == LET p == pair[1] q == pair[2] IN
    Order(val[1], val[2]) = <<p[1] * q[2] < p[2] * q[1], p[1] * q[2] <= p[2] * q[1], p[1] * q[2] > p[2] * q[1],
                              p[1] * q[2] >= p[2] * q[1], p = q, p # q>>
Emit == Len(script) = Depth + 1 => PrintT("@@" \o ToJson(script))
=============================================================================
