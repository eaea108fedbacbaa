--------------------------- MODULE FractionTrace ---------------------------
(* Recorded fraction arithmetic: each register of the code must show the
   number the specification holds, however many operations went before. *)
EXTENDS Fraction, TraceBase

ASSUME SelfTest

TInit == FInit /\ l = 1
TNext ==
    \/ Is("Begin") /\ val' = <<>>
    \/ /\ Is("Make") /\ Act("make", Make(ev.r, ev.num, ev.den))
       /\ Chk("made-in-lowest-terms", Shows(RDiv(ev.num, ev.den), ev.n, ev.d))
    \/ /\ Is("Op")
       /\ Chk("known-operation", ev.op \in Ops)
       /\ Act("apply", Apply(ev.op, ev.r, ev.a, ev.b, ev.z))
       /\ Chk("exact-in-lowest-terms", Shows(Result(ev.op, val[ev.a], val[ev.b], ev.z), ev.n, ev.d))
       /\ Chk("operands-unchanged", \A i \in DOMAIN val : i # ev.r =>
                Shows(val[i], ev.regs[i][1], ev.regs[i][2]))
    \/ /\ Is("Cmp") /\ UNCHANGED val
       /\ Chk("order-of-fractions", ev.ans = Order(val[ev.a], val[ev.b]))
       /\ Chk("three-way", ev.cmp = RSign(RSub(val[ev.a], val[ev.b])))
    \/ /\ Is("CmpZ") /\ UNCHANGED val
       /\ Chk("order-with-an-integer-right", ev.ans = Order(val[ev.a], ev.z))
       /\ Chk("order-with-an-integer-left", ev.left = Order(ev.z, val[ev.a]))
    \/ /\ Is("Gcd") /\ UNCHANGED val
       /\ Chk("greatest-common-divisor", REq(ev.g, IF REq(ev.y, 0) THEN RAbs(ev.x)
                ELSE RAbs(RDiv(ev.y, RDenom(RDiv(ev.x, ev.y))))))
       /\ Chk("least-common-multiple", REq(ev.m, IF REq(ev.x, 0) \/ REq(ev.y, 0) THEN 0
                ELSE RAbs(RMul(ev.x, RDenom(RDiv(ev.x, ev.y))))))
TView == l
TSpec == TInit /\ [][TNext]_<<val, l>>
=============================================================================
