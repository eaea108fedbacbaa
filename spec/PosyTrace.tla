----------------------------- MODULE PosyTrace -----------------------------
(* Recorded operations on monomials and posynomials, and what they show.    *)
EXTENDS Posy, TraceBase

ASSUME SelfTest

\* the size of what was added up, which bounds the rounding
Size(t, y) == RAdd(RAdd(1, RAbs(RLog(t.c))), RSumSeq([m \in DOMAIN y |-> RAbs(RMul(t.a[m], y[m]))]))
Tol == RPow10(0 - 12)
Exponents(s) == RMaxSeq(<<1>> \o [j \in DOMAIN s |-> RMaxSeq([m \in 1..n |-> RAbs(s[j].a[m])])])
\* every way of asking: value and gradient of log f(exp y)
Shows(s, y, o) ==
    LET L == LogTerms(s, y) E == Scaled(L) v == ValueOf(L, E) g == GradientOf(s, E, n)
        size == RMaxSeq([j \in DOMAIN s |-> Size(s[j], y)])
    IN  /\ Chk("value-of-the-function", \A i \in DOMAIN o.f : RWithin(o.f[i], v, Tol, RMul(40, size)))
        /\ Chk("gradient-of-the-function", \A i \in DOMAIN o.g : Len(o.g[i]) = n /\
              \A m \in 1..n : RWithin(o.g[i][m], g[m], Tol, RMul(RMul(40, size), Exponents(s))))
Looked == IF Has("y") THEN \A r \in 1..2 : /\ \A t \in DOMAIN ev.y : Shows(<<mono'[r]>>, ev.y[t], ev.mono[r][t])
                                           /\ \A t \in DOMAIN ev.y : Shows(posy'[r], ev.y[t], ev.posy[r][t])
          ELSE TRUE
TInit == Init0 /\ l = 1
TNext ==
    \/ Is("Begin") /\ Begin(ev.n)
    \/ /\ Is("Op") /\ NeedsOwn(ev.op, ev.r, ev.i)
       /\ \/ ev.kind = "mono" /\ Act("mono", MonoOp(ev.op, ev.r, ev.q, ev.k, ev.a))
          \/ ev.kind = "posy" /\ Act("posy", PosyOp(ev.op, ev.r, ev.q, ev.k, ev.i))
       /\ Looked
TView == l
TSpec == TInit /\ [][TNext]_<<n, mono, posy, l>>
=============================================================================
