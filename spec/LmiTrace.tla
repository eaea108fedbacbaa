------------------------------ MODULE LmiTrace ------------------------------
(* Recorded queries, several on one oracle object and on its variants. *)
EXTENDS Lmi, TraceBase

ASSUME SelfTest
VARIABLES past      \* answers so far
tvars == <<ovars, past, l>>
TGrid == {}

RECURSIVE PivotsTo(_, _, _, _)     \* pivots up to the first that is not positive
PivotsTo(m, k, prev, got) ==
    IF k > Len(m) THEN got
    ELSE LET d == MDet(Block(m, 0, k)) p == RDiv(d, prev)
         IN  IF RLe(p, 0) THEN Append(got, p) ELSE PivotsTo(m, k + 1, d, Append(got, p))
\* size of the terms that make up the matrix
MaxAbs(m) == RMaxSeq([i \in DOMAIN m |-> RMaxSeq([j \in DOMAIN m[i] |-> RAbs(m[i][j])])])
LinScale(p, x) == RAdd(IF p.form = "plus" THEN 0 ELSE MaxAbs(p.F0), RSumSeq([k \in DOMAIN x |-> RMul(RAbs(x[k]), MaxAbs(p.F[k]))]))
Scale(p, x, t) == IF p.form = "quad" THEN RAdd(RAbs(t), RMul(Len(p.F[1]), RSq(LinScale(p, x)))) ELSE LinScale(p, x)
Pow2(x) == \E k \in (0 - 9)..9 : REq(x, RPow2(k))
\* decided beyond rounding?
Clear(q, scale, exact) ==
    \/ exact /\ \A k \in 1..(Len(q) - 1) : Pow2(q[k])          \* small numbers, no rounding so far
    \/ \A k \in DOMAIN q : RLt(RMul(RPow10(0-4), scale), RAbs(q[k]))

Ans(e) == [who |-> e.who, x |-> e.x, t |-> e.t, ok |-> e.ok, f |-> e.f, g |-> e.g]
\* the same answer up to rounding; the numbers have at most this size
Same(a, b, scale) ==
    /\ a.ok = b.ok
    /\ ~a.ok => /\ RWithin(a.f, b.f, RPow10(0-6), RAdd(scale, RMax(RAbs(a.f), RAbs(b.f))))
                /\ \A k \in DOMAIN a.g : RLe(RAbs(RSub(a.g[k], b.g[k])),
                        RMul(RPow10(0-6), RAdd(scale, RMaxSeq([i \in DOMAIN a.g |-> RAbs(a.g[i])]))))
\* acceptable with some room left, so that rounding of the cut does not matter
WellAcceptable(p, y, t, room) ==
    LET m == At(p, y, t)
    IN  MPosDef([i \in DOMAIN m |-> [j \in DOMAIN m |-> IF i = j THEN RSub(m[i][i], room) ELSE m[i][j]]])

Check ==
    LET m == At(prob, ev.x, ev.t)
        scale == Scale(prob, ev.x, ev.t)
        q == PivotsTo(m, 1, 1, <<>>)
        good == RLt(0, q[Len(q)])
        clear == Clear(q, scale, ev.exact)
        me == Ans(ev)
        c == [f |-> ev.f, g |-> ev.g]
    IN  /\ clear => Chk("accepts-exactly-the-acceptable", ev.ok = good)
        /\ IF ev.ok THEN TRUE
           ELSE /\ Chk("numbers", RIsNum(ev.f) /\ VIsNum(ev.g) /\ Len(ev.g) = Len(ev.x))
                /\ Chk("cut-is-violated-by-the-point", RLe(0, ev.f))
                /\ Chk("cut-excludes-no-acceptable-point", \A k \in DOMAIN ev.ys :
                        LET y == ev.ys[k]
                            room == RMul(RPow10(0-9), RAdd(RAdd(scale, Scale(prob, y, ev.t)),
                                                           Scale(prob, [i \in DOMAIN y |-> RSub(y[i], ev.x[i])], 0)))
                        IN  RLe(CutValue(c, ev.x, y), 0) \/ ~WellAcceptable(prob, y, ev.t, room))
        /\ clear => /\ Chk("same-answer-from-a-new-oracle", Same(me, ev.fresh, scale))
                    /\ Chk("same-answer-as-before-and-as-the-variants", \A k \in DOMAIN past :
                            (past[k].x = ev.x /\ past[k].t = ev.t) => Same(me, past[k], scale))
TInit == OInit /\ past = <<>> /\ l = 1
TNext ==
    \/ /\ Is("Begin") /\ prob' = [form |-> ev.form, F |-> ev.F, F0 |-> ev.F0] /\ past' = <<>>
       /\ UNCHANGED <<fvars, pt, lev>>
    \/ /\ Is("Query") /\ pt' = ev.x /\ lev' = ev.t /\ UNCHANGED <<fvars, prob>>
       /\ Chk("answer", Check)
       /\ past' = Append(past, Ans(ev))
TView == l
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
