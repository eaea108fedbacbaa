----------------------------- MODULE FitTrace -----------------------------
(***************************************************************************)
(* Recorded fits.  A fit is judged by what it returns: no point near it    *)
(* and none of those that came out of another search (ys) may be           *)
(* acceptable, with the room that a solver of this accuracy cannot see,    *)
(* and clearly better.                                                     *)
(***************************************************************************)
EXTENDS Fit, TraceBase

ASSUME SelfTest
tvars == <<fvars, l>>
TGrid(f) == {}
Acc == "0.0003"        \* the final accuracy is 1e-4 in the objective
RECURSIVE Bisect(_, _, _, _)
Bisect(q, lo, hi, k) == IF k = 0 THEN hi ELSE LET mid == RRound(RDiv(RAdd(lo, hi), 2), 60) IN
    IF MPosDef(Shift(q, mid)) THEN Bisect(q, lo, mid, k - 1) ELSE Bisect(q, mid, hi, k - 1)
\* the squared error at x, from above, to about nine digits
Err(j, x) == LET q == MRound(NegSquare(Misfit(j, x)), 60) IN Bisect(q, 0, RAdd(RNeg(Trace_(q)), RPow10(0-12)), 32)

Dist2(x, y) == LET d == VSub(x, y) IN VDot(d, d)
Start(j, m) == [k \in 1..m |-> IF k = 1 /\ j.form # "free" THEN 4 ELSE 0]
\* points that certainly lie in the search space at the start, and stay in it
InReach(j, y) == RLe(Dist2(y, Start(j, Len(y))), IF j.form = "free" THEN 1 ELSE 100)
\* "free" moves its small search space from time to time: sure only where
\* no covariance with an error up to that of zero is far from zero
Gram(F) == [a \in DOMAIN F |-> [b \in DOMAIN F |-> Trace_(MMul(F[a], F[b]))]]
Tame(j) == Pos(Gram(j.F), RMul(4 * Len(j.Y), Trace_(MMul(MTrans(j.Y), j.Y))))
Near(x) == LET n == Len(x) IN
    [q \in 1..(4 * n) |-> LET k == 1 + ((q - 1) \div 4) h == <<"0.02", "-0.02", "0.1", "-0.1">>[1 + ((q - 1) % 4)] IN [x EXCEPT ![k] = RAdd(x[k], h)]]
    \o [q \in 1..(2 * n) |-> LET k == 1 + ((q - 1) \div 2) h == <<"0.5", "1.5">>[1 + ((q - 1) % 2)] IN [x EXCEPT ![k] = RMul(x[k], h)]]
    \o [q \in 1..4 |-> VScale(<<"0.9", "0.98", "1.02", "1.1">>[q], x)]
Scale(j, x) == RSumSeq([k \in DOMAIN x |-> RMul(RAbs(x[k]), Trace_([i \in DOMAIN j.F[k] |-> [a \in DOMAIN j.F[k] |->
                          RMaxSeq([b \in DOMAIN j.F[k] |-> RAbs(j.F[k][i][b])])]]))])
\* not decided beyond rounding
Vague(j, x) == Admissible(j, x, RMul(RPow10(0-9), RNeg(Scale(j, x))))
Nothing(j, x, pts) ==
    IF j.form = "likely"
    THEN LET v == Likely(j, x) IN
         \A k \in DOMAIN pts : LET y == pts[k] IN (InReach(j, y) /\ Admissible(j, y, Acc)) => Chk("no-likelier-covariance", RLe(v, RAdd(Likely(j, y), Acc)))
    ELSE LET v == RSub(Err(j, x), Acc) IN
         \A k \in DOMAIN pts : LET y == pts[k] IN (InReach(j, y) /\ ErrBelow(j, y, v)) => Chk("no-closer-covariance", ~Admissible(j, y, Acc))
Judge(j) ==
    IF ev.ok
    THEN /\ Chk("numbers", Len(ev.x) = Len(j.F) /\ VIsNum(ev.x))
         /\ Chk("admissible", Vague(j, ev.x))
         /\ j.form = "free" => Chk("error-within-range", ErrBelow(j, ev.x, 10000))
         /\ ev.iters < 2000 => ((j.form = "free" => Tame(j)) => Nothing(j, ev.x, ev.ys \o Near(ev.x)))
    ELSE /\ Chk("claims-failure-only-if-there-is-none",
                \A k \in DOMAIN ev.ys : LET y == ev.ys[k] IN ~(InReach(j, y) /\ Admissible(j, y, Acc) /\ (j.form # "likely" => ErrBelow(j, y, 9990))))
Sites == \* the regular grid over [0, 10] x [0, 8], column by column
    /\ Len(ev.s) = ev.nx * ev.ny
    /\ \A k \in DOMAIN ev.s : LET i == (k - 1) \div ev.ny j == (k - 1) % ev.ny IN
        /\ RClose(ev.s[k][1], IF ev.nx = 1 THEN 0 ELSE RDiv(10 * i, ev.nx - 1), RPow10(0-12))
        /\ RClose(ev.s[k][2], IF ev.ny = 1 THEN 0 ELSE RDiv(8 * j, ev.ny - 1), RPow10(0-12))
\* each entry is an average of N products; eight standard errors
Sample == \A i, j \in DOMAIN ev.s :
    LET c == RMul(4, RExp(RMul("-0.3", Dist(ev.s, i, j))))
    IN  RLe(RSq(RSub(ev.Y[i][j], c)), RDiv(RMul(64, RAdd(16, RSq(c))), ev.N))
TInit == FInit /\ l = 1
TNext ==
    \/ Is("Begin") /\ UNCHANGED fvars
    \/ /\ Is("Fit") /\ Act("begin", FBegin(ev.form, ev.s, ev.Y, ev.m, 0))
    \/ /\ Is("Result") /\ UNCHANGED fvars
       /\ Chk("judged", Judge(job))
       /\ Chk("same-again", ev.again)
    \/ Is("Sites") /\ UNCHANGED fvars /\ Chk("regular-grid", Sites)
    \/ /\ Is("Data") /\ UNCHANGED fvars
       /\ Chk("symmetric", \A i, j \in DOMAIN ev.Y : RClose(ev.Y[i][j], ev.Y[j][i], RPow10(0-12)))
       /\ Chk("positive-semidefinite", Pos(MScale("0.5", MAdd(ev.Y, MTrans(ev.Y))), RMul(RPow10(0-9), RNeg(Trace_(ev.Y)))))
       /\ Chk("averages-the-kernel", Sample)
       /\ Chk("same-again", ev.again)
TView == l
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
