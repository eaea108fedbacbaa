--------------------------- MODULE EllipsoidTrace ---------------------------
(* Recorded histories of families of ell and ell_stable objects.  Each event
   carries, for every object alive, its centre and shape as observed through
   the public interface after the operation.  Which of the conditions are judged
   depends on the property under check; what is not judged is taken as logged. *)
EXTENDS Ellipsoid, TraceBase, FiniteSets

ASSUME SelfTest
Property == IOEnv.PROPERTY
Judge(ps, name, cond) == IF Property \in ps THEN Chk(name, cond) ELSE TRUE

VARIABLES
    last,    \* per object: the latest answer, <<verdict, size>>
    dev      \* per object: [stable, kappa, off]; off: it has deviated
tvars == <<evars, last, dev, l>>

Tol == RPow10(-9)
Objs == ev.objs
WellFormed == /\ \A k \in DOMAIN Objs : VIsNum(Objs[k].x) /\ MIsNum(Objs[k].P)
\* x: where b came from, if it may have gone far out of the space, far: of the centre's size
CloseX(a, b, P, tol, x, far) ==
    /\ \A i \in DOMAIN a.x : RLe(RAbs(RSub(a.x[i], b.x[i])),
                                 RAdd(RMul(tol, RAdd(RSqrt(P[i][i]), RAbs(RSub(b.x[i], x[i])))), RMul(far, RAbs(b.x[i]))))
    /\ \A i \in DOMAIN P, j \in DOMAIN P :
           i <= j => /\ RLe(RSq(RSub(a.P[i][j], b.P[i][j])), RMul(RSq(tol), RMul(P[i][i], P[j][j])))
                     /\ RLe(RSq(RSub(a.P[j][i], b.P[i][j])), RMul(RSq(tol), RMul(P[i][i], P[j][j])))
Close(a, b, P, tol) == CloseX(a, b, P, tol, b.x, RPow2(-45))
Logged(par) == [k \in DOMAIN Objs |-> [x |-> Objs[k].x, P |-> Objs[k].P, par |-> par[k]]]
Pars == [k \in DOMAIN spaces |-> spaces[k].par]
Same(k) == Objs[k].x = spaces[k].x /\ Objs[k].P = spaces[k].P

\* the start: objects constructed from a size or a diagonal and a centre
TBegin ==
    LET start(k) == [x |-> ev.starts[k].x, P |-> MDiag(ev.starts[k].d), par |-> ev.starts[k].par]
    IN  /\ Chk("finite", WellFormed)
        /\ Chk("constructed-as-asked", \A k \in DOMAIN Objs : Close(Objs[k], start(k), start(k).P, RPow10(-13)))
        /\ spaces' = Logged([k \in DOMAIN Objs |-> ev.starts[k].par])
        /\ points' = [k \in DOMAIN Objs |-> ev.pts]
        /\ last' = [k \in DOMAIN Objs |-> <<"", 0>>]
        /\ dev' = [k \in DOMAIN Objs |-> [stable |-> ev.starts[k].kind = 1, kappa |-> ev.starts[k].kappa, off |-> FALSE]]

TCut ==
    LET k == ev.k
        s == spaces[k]
        n == Len(s.x)
        par == ev.far # None /\ s.par
        far == IF par THEN ev.far ELSE None
        tsq == Size(s.P, ev.g)
        tau == RSqrt(ev.tsq)
        lo == Low(tau, far)
        hi == High(tau, ev.near)
        e == IF ev.exact THEN 0 ELSE Tol
        \* the two sides coincide within the space: a slice is left, and whether
        \* they cross does not depend on rounding
        slice == par /\ ev.near = ev.far /\ RLt(RAbs(lo), RSub(1, Tol))
        wanted == IF slice THEN {"success"} ELSE Verdict(n, lo, hi, e)
        mine == IF ev.far = None THEN {"C06"} ELSE {"C07"}
        \* what the size is made of
        mass == RSumSeq([i \in 1..n |-> RMul(RAbs(ev.g[i]), RSqrt(s.P[i][i]))])
        nobodyElse == \A j \in DOMAIN spaces : j # k => Same(j)
    IN  /\ Judge({"C06", "C07", "C08"}, "finite", WellFormed /\ RIsNum(ev.tsq))
        /\ Judge({"C06", "C08"}, "size-is-squared-half-width", RWithin(ev.tsq, tsq, RPow10(-11), RSq(mass)))
        /\ Judge({"C08", "C09"}, "verdict", ev.verdict \in wanted)
        /\ Judge({"C07"}, "crossed-or-empty-slab-is-nosoln", ev.far # None /\ ~("nosoln" \notin wanted) => (ev.verdict = "nosoln" \/ Cardinality(wanted) > 1))
        /\ Judge({"C09"}, "others-untouched", nobodyElse)
        /\ IF ev.verdict = "success"
           THEN LET a == After(s.x, s.P, ev.g, tau, lo, hi)
                        d == AfterDiagonal(s.x, s.P, dev[k].kappa, ev.g, tau, lo, hi)
                        right == Close(Objs[k], a, s.P, Tol)
                IN  /\ Judge({"C08"}, "positive-definite", MPosDef(Objs[k].P) \/ (ev.exact /\ REq(lo, hi) /\ PointShape(Objs[k].P)))
                    /\ Judge(mine, "accepted-although-it-should-not-be", "success" \in wanted)
                    /\ Judge(mine, "smallest-ellipsoid", right)
                    /\ Judge(mine, "half-width-along-the-cut",
                             LET k1 == Smallest(n, lo, hi) w == RMul(RMul(k1.across, k1.s), tsq)
                             IN  RLe(RAbs(RSub(ev.along, w)), RAdd(RMul(RPow10(-7), w), RMul(RPow10(0-14), RSq(mass)))))
                    /\ Judge({"C08"}, "same-step-as-the-plain-form",
                             right \/ (dev[k].stable /\ CloseX(Objs[k], d, s.P, Tol, s.x, RPow2(-45)) /\ Deviates("ell-stable-factors")))
                    /\ dev' = [dev EXCEPT ![k].off = @ \/ ~right, ![k].kappa = RRound(RMul(@, Smallest(n, lo, hi).across), 200)]
           ELSE /\ dev' = dev
                /\ Judge({"C08", "C09"} \cup mine, "refused-cut-changes-nothing", Same(k))
                /\ Judge(mine, "refused-although-it-should-not-be", wanted # {"success"})
        /\ spaces' = Logged(Pars)
        /\ points' = [points EXCEPT ![k] = IF ev.verdict = "success" THEN SelectSeq(@, LAMBDA p : Keeps(s.x, ev.g, ev.near, far, p)) ELSE @]
        /\ last' = [last EXCEPT ![k] = <<ev.verdict, ev.tsq>>]
        /\ Judge(mine, "no-point-lost", \A p \in DOMAIN points'[k] : PointShape(Objs[k].P) \/ Inside(Objs[k].x, Objs[k].P, points'[k][p], RPow10(-5)))

\* all objects were given the same cuts: they must be in the same state
On == {k \in DOMAIN dev : ~dev[k].off}
TCompare ==
    /\ Chk("same-verdicts", \A k \in On : last[k][1] = last[1][1])
    /\ Chk("same-sizes", \A k \in On : RRel(last[k][2], last[1][2], RPow10(-6)))
    \* after many steps, each of which may round the centre
    /\ Chk("same-centre-and-shape", \A k \in On : CloseX(spaces[k], spaces[1], spaces[1].P, RPow10(-6), spaces[1].x, RPow2(-40)))
    /\ UNCHANGED <<evars, last, dev>>

TCopy ==
    /\ Judge({"C09"}, "copy-is-equal", Len(Objs) = Len(spaces) + 1 /\ Objs[Len(Objs)].x = spaces[ev.k].x /\ Objs[Len(Objs)].P = spaces[ev.k].P)
    /\ Judge({"C09"}, "copying-changes-nothing", \A j \in DOMAIN spaces : Same(j))
    /\ spaces' = Logged(Append(Pars, spaces[ev.k].par))
    /\ points' = Append(points, points[ev.k])
    /\ last' = Append(last, last[ev.k])
    /\ dev' = Append(dev, dev[ev.k])
\* the last two events gave the same cut to a space and to its copy
TTwin ==
    /\ Chk("copy-goes-on-like-the-original",
           /\ last[ev.k][1] = last[ev.j][1]
           /\ RRel(last[ev.k][2], last[ev.j][2], RPow10(-8))
           /\ Close(spaces[ev.j], spaces[ev.k], spaces[ev.k].P, RPow10(-8)))
    /\ UNCHANGED <<evars, last, dev>>
TMove ==
    /\ Judge({"C09"}, "moving-keeps-the-shape", Objs[ev.k].x = ev.x /\ Objs[ev.k].P = spaces[ev.k].P)
    /\ Judge({"C09"}, "others-untouched", \A j \in DOMAIN spaces : j # ev.k => Same(j))
    /\ spaces' = Logged(Pars)
    /\ points' = [points EXCEPT ![ev.k] = <<>>]
    /\ UNCHANGED <<last, dev>>

TInit == EInit /\ last = <<>> /\ dev = <<>> /\ l = 1
TNext == \/ Is("Begin") /\ TBegin
         \/ Is("Cut") /\ TCut
         \/ Is("Compare") /\ TCompare
         \/ Is("Copy") /\ TCopy
         \/ Is("Twin") /\ TTwin
         \/ Is("Move") /\ TMove
TView == l
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
