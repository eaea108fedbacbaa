-------------------------------- MODULE Csd --------------------------------
(***************************************************************************)
(* Numbers as strings of signed binary digits, '+', '-' and '0', with a    *)
(* point.  A string is a sequence of codes: 1, -1, 0 for the digits, 2 for *)
(* the point, 9 for anything else.                                         *)
(*                                                                         *)
(* The recoding is a machine that emits one digit at a time, the highest   *)
(* first: a digit of weight u/2 is used exactly when more than u/3 is      *)
(* left.  What is left then never exceeds two thirds of the last unit, a   *)
(* third after a digit that is not zero, which is why no two of those are  *)
(* adjacent.  The form "places" stops after so many binary places, the     *)
(* form "fixed" when nothing is left or its digits are used up.            *)
(***************************************************************************)
EXTENDS Rat, TLC

VARIABLES num, form, limit, w, rem, used, s
\* num: the number asked for; form, limit: what may be used
\* 2^w: the unit of the last place emitted; rem: what is left; used: digits # 0
vars == <<num, form, limit, w, rem, used, s>>

POINT == 2
Digits == {0, 1, 0 - 1}
IsDigit(c) == c \in Digits

\* the smallest n >= 0 whose string "n digits, then the point" can hold num
RECURSIVE Width(_, _)
Width(a, n) == IF RLe(RMul(3, a), RPow2(n + 1)) THEN n ELSE Width(a, n + 1)
\* (no more than n digits are needed when |num| <= 2/3 2^n)

Start(x, f, k) ==
    /\ num = x /\ form = f /\ limit = k /\ used = 0
    /\ rem = x
    /\ LET n == Width(RAbs(x), 0) IN
         IF RSign(x) = 0 THEN w = 0 /\ s = <<0>>
         ELSE w = n /\ s = IF n = 0 THEN <<0>> ELSE <<>>

\* is there another digit to emit?
More == IF RSign(num) = 0 THEN FALSE
        ELSE IF form = "places" THEN w > 0 - limit
        ELSE w > 0 \/ (used < limit /\ RSign(rem) # 0)
Digit(left, unit) ==       \* the digit of weight unit/2
    IF form = "fixed" /\ used >= limit THEN 0
    ELSE IF RGt(RMul(3, left), unit) THEN 1
    ELSE IF RGt(RMul(0 - 3, left), unit) THEN 0 - 1
    ELSE 0
Emit1 ==
    /\ More
    /\ LET d == Digit(rem, RPow2(w)) IN
         /\ s' = (IF w = 0 THEN Append(s, POINT) ELSE s) \o <<d>>
         /\ rem' = RSub(rem, RMul(d, RPow2(w - 1)))
         /\ used' = IF d = 0 THEN used ELSE used + 1
    /\ w' = w - 1
    /\ UNCHANGED <<num, form, limit>>

-----------------------------------------------------------------------------
(* What a string says. *)
Only(t) == SelectSeq(t, IsDigit)
RECURSIVE PointAt(_, _)
PointAt(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = POINT THEN i ELSE PointAt(t, i + 1)
\* digits behind the point
Behind(t) == LET p == PointAt(t, 1) IN IF p = 0 THEN 0 ELSE Len(Only(SubSeq(t, p + 1, Len(t))))
\* the digits of d, read as an integer: by halves, so that long strings are no deep recursion
RECURSIVE AsInteger(_)
AsInteger(d) == IF Len(d) = 0 THEN 0 ELSE IF Len(d) = 1 THEN RNum(d[1])
                ELSE LET h == Len(d) \div 2 IN
                     RAdd(RMul(AsInteger(SubSeq(d, 1, h)), RPow2(Len(d) - h)), AsInteger(SubSeq(d, h + 1, Len(d))))
Value(t) == RMul(AsInteger(Only(t)), RPow2(0 - Behind(t)))

WellFormed(t) == /\ \A i \in DOMAIN t : t[i] \in Digits \cup {POINT}
                 /\ \A i, j \in DOMAIN t : t[i] = POINT /\ t[j] = POINT => i = j
NonAdjacent(t) == LET d == Only(t) IN \A i \in 1..(Len(d) - 1) : d[i] = 0 \/ d[i + 1] = 0
NonZeros(t) == Len(SelectSeq(t, LAMBDA c : c \in {1, 0 - 1}))

\* the last digit that is not zero: its place among the digits, 0 if none
RECURSIVE LastNZ(_, _)
LastNZ(d, i) == IF i = 0 THEN 0 ELSE IF d[i] # 0 THEN i ELSE LastNZ(d, i - 1)

(* The judges: what a conversion of x must satisfy. *)
Needs(x) == RDenom(x)                              \* x fits p places iff Needs(x) <= 2^p
GoodPlaces(x, p, t) ==
    /\ WellFormed(t) /\ NonAdjacent(t)
    /\ Behind(t) <= p
    /\ RLe(RMul(3, RAbs(RSub(x, Value(t)))), RPow2(1 - p))
    /\ RLe(Needs(x), RPow2(p)) => REq(Value(t), x)
GoodFixed(x, k, t) ==
    /\ WellFormed(t) /\ NonAdjacent(t)
    /\ NonZeros(t) <= k
    /\ NonZeros(t) < k => REq(Value(t), x)
    /\ LET d == Only(t) i == LastNZ(d, Len(d)) IN
         i > 0 => RLe(RMul(3, RAbs(RSub(x, Value(t)))), RPow2(Len(d) - i - Behind(t)))

CInvWeight == RLe(RMul(3, RAbs(rem)), RPow2(w + 1)) \/ (form = "fixed" /\ used >= limit)
CInvAfter == s # <<>> /\ s[Len(s)] \in {1, 0 - 1} => RLe(RMul(3, RAbs(rem)), RPow2(w))
=============================================================================
