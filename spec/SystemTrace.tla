----------------------------- MODULE SystemTrace -----------------------------
(* Recorded complete solves.  The problem stands in the Begin event; the      *)
(* candidates are its witnesses that the specification finds feasible and in  *)
(* the initial space.  System!Complete is judged after every cut, with the    *)
(* space as it can be observed.                                               *)
EXTENDS Problem, TraceBase

ASSUME SelfTest

VARIABLES
    b,        \* the problem: the Begin event
    cand,     \* the candidates, [w, v]: point and value
    space,    \* [x, P]
    best,     \* [t, at]: best value, where it was reached (<<>>: not yet)
    level,    \* of a search for feasibility: feasible means value <= level as well (<<>>: none)
    at,       \* what the oracle was asked last: [x, yes]
    cut,      \* the last cut: [objective, near, verdict, tsq]
    ended     \* a search for feasibility is over
svars == <<b, cand, space, best, level, at, cut, ended>>

None == [e |-> "None"]
TInit == b = None /\ cand = <<>> /\ space = None /\ best = None /\ level = <<>> /\ at = None /\ cut = None /\ ended = FALSE /\ l = 1

Margin(v, t) == RMul(RPow10(-9), RAdd(RAbs(v), RAbs(t)))
Hopeful(c, bst, lev) ==
    IF b.how \in {"feas", "bs"} THEN lev = <<>> \/ RLe(c.v, RSub(lev[1], Margin(c.v, lev[1])))
    ELSE RLt(c.v, RSub(bst.t, Margin(c.v, bst.t)))
Better == SelectSeq(cand, LAMBDA c : Hopeful(c, best, level))
In(x, P, c) == Within(x, P, c.w, RPow10(-5))
\* valid: whatever is let through, up to rounding
LetsBy(x, g, near, far, w) ==
    LET d == VSub(w, x)
        v == VDot(g, d)
        slack == RMul(RPow10(-9), RAdd(RSumSeq([i \in DOMAIN g |-> RAbs(RMul(g[i], RMax(RAbs(w[i]), RAbs(x[i]))))]), RAbs(near)))
    IN  /\ RLe(RAdd(v, near), slack)
        /\ far # "none" => RLe(RNeg(slack), RAdd(v, far))
HoldsNearly(c, x) ==
    \/ Holds(c, x)
    \/ LET e == RMul(RPow10(-9), RAdd(RAbs(c.hi), RSumSeq([i \in DOMAIN x |-> RAdd(RAbs(RMul(c.a[i], x[i])), RSq(RAdd(RAbs(x[i]), RAbs(c.a[i]))))])))
       IN  IF c.t = "ball" THEN Holds([c EXCEPT !.hi = RAdd(@, e)], x)
           ELSE Holds([c EXCEPT !.hi = RAdd(@, e), !.lo = RSub(@, e)], x)
\* what a value is made of
Mass(x) == RSumSeq([i \in DOMAIN x |-> RAdd(RAbs(RMul(b.obj.c[i], x[i])), RMul(b.obj.q, RSq(RAdd(RAbs(x[i]), RAbs(b.obj.p[i])))))])
Good(x) == \A i \in DOMAIN b.cons : HoldsNearly(b.cons[i], x)

TBegin ==
    /\ b' = ev
    /\ cand' = LET ok == SelectSeq(ev.wit, LAMBDA w : Feasible(ev.cons, w) /\ Within(ev.x, ev.P, w, 0))
               IN  [i \in DOMAIN ok |-> [w |-> ok[i], v |-> Objective(ev.obj, ok[i])]]
    /\ space' = [x |-> ev.x, P |-> ev.P]
    /\ best' = [t |-> ev.t, at |-> <<>>]
    /\ level' = <<>> /\ at' = None /\ cut' = None /\ ended' = FALSE

\* the oracle is asked about the centre, and what it says is true
TAsk ==
    /\ Chk("asked-about-the-centre", ev.x = space.x /\ ~ended)
    /\ Chk("the-oracle-is-right", ev.yes => Good(ev.x))
    /\ at' = [x |-> ev.x, yes |-> ev.yes]
    /\ ended' = ev.yes
    /\ UNCHANGED <<b, cand, space, best, level, cut>>
TAskFor ==
    /\ Chk("asked-about-the-centre", ev.x = space.x)
    /\ Chk("asked-with-the-best-value", ev.t0 = best.t)
    /\ Chk("the-oracle-is-right", ev.shrunk =>
             LET v == Objective(b.obj, ev.at)
             IN  Good(ev.at) /\ RLt(ev.t, ev.t0) /\ RLe(RAbs(RSub(ev.t, v)), RMul(RPow10(-9), Mass(ev.at))))
    /\ best' = IF ev.shrunk THEN [t |-> ev.t, at |-> ev.at] ELSE best
    /\ at' = [x |-> ev.x, yes |-> FALSE]
    /\ UNCHANGED <<b, cand, space, level, cut, ended>>

TCut ==
    LET better == Better IN
    /\ Chk("finite", VIsNum(ev.x) /\ MIsNum(ev.P) /\ RIsNum(ev.tsq))
    /\ Chk("the-cut-is-valid", \A i \in DOMAIN better : LetsBy(space.x, ev.g, ev.near, ev.far, better[i].w))
    /\ Chk("the-oracle-said-so", at.x = space.x /\ ~at.yes)
    /\ Chk("nothing-better-is-lost", \A i \in DOMAIN better : In(ev.x, ev.P, better[i]))
    /\ Chk("no-solution-is-true", ev.verdict = "nosoln" => better = <<>>)
    /\ space' = [x |-> ev.x, P |-> ev.P]
    /\ cut' = [objective |-> ev.objective, near |-> ev.near, verdict |-> ev.verdict, tsq |-> ev.tsq]
    /\ UNCHANGED <<b, cand, best, level, at, ended>>

InTime(status) == Chk("ends-in-time", status = "success" => b.maxit < 2000 \/ at.yes)
Small == cut # None /\ (cut.verdict = "success" \/ (b.how = "q" /\ cut.verdict = "noeffect")) /\ RLt(cut.tsq, b.tol)
Claims(status) ==
    /\ Chk("nothing-better-where-it-says-so", cut # None /\ cut.verdict = "nosoln" => Better = <<>>)
    /\ Chk("small-is-small", status = "smallenough" => Small)
    /\ Chk("near-optimal", status = "smallenough" /\ cut.objective =>
              \A i \in DOMAIN cand : RLe(RSub(best.t, cand[i].v),
                  RAdd(RAdd(RMul(RSqrt(b.tol), RAdd(1, RPow10(-6))), RMax(0, RNeg(cut.near))), RMul(RPow10(-8), RAdd(RAbs(best.t), RAbs(cand[i].v))))))
    /\ InTime(status)

TFeas ==
    /\ Chk("found-means-found", ev.feasible = (at # None /\ at.yes))
    /\ Chk("status", ev.status = (IF at # None /\ at.yes THEN "success" ELSE IF cut = None THEN "success" ELSE IF Small THEN "smallenough" ELSE cut.verdict))
    /\ Claims(ev.status)
    /\ UNCHANGED svars
TBest ==
    /\ Chk("reports-the-best", ev.t = best.t /\ ev.best = best.at /\ ev.feasible = (best.at # <<>>))
    /\ Claims(ev.status)
    /\ UNCHANGED svars

\* the searches under a bisection: each starts from where the adaptor stands
TCopy == /\ space' = [x |-> ev.x, P |-> ev.P]
         /\ cand' = LET ok == SelectSeq(b.wit, LAMBDA w : Feasible(b.cons, w) /\ Within(ev.x, ev.P, w, 0))
                    IN  [i \in DOMAIN ok |-> [w |-> ok[i], v |-> Objective(b.obj, ok[i])]]
         /\ ended' = FALSE /\ cut' = None /\ at' = None
         /\ UNCHANGED <<b, best, level>>
TLevel == level' = <<ev.t>> /\ UNCHANGED <<b, cand, space, best, at, cut, ended>>
TTested ==
    /\ Chk("yes-means-found", ev.yes = (at # None /\ at.yes))
    /\ Chk("found-is-good-enough", ev.yes => /\ Good(ev.x)
              /\ RLe(Objective(b.obj, ev.x), RAdd(level[1], RMul(RPow10(-9), RAdd(RAbs(level[1]), RAbs(Objective(b.obj, ev.x)))))))
    /\ Chk("no-solution-is-true", cut # None /\ cut.verdict = "nosoln" => Better = <<>>)
    /\ best' = IF ev.yes THEN [t |-> level[1], at |-> ev.x] ELSE best
    /\ UNCHANGED <<b, cand, space, level, at, cut, ended>>
TSearched ==
    /\ Chk("reports-the-best", ev.feasible = (best.at # <<>>) /\ (ev.feasible => ev.best = best.at /\ ev.hi = best.t))
    /\ UNCHANGED svars

TNext == \/ Is("Begin") /\ TBegin
         \/ Is("Ask") /\ TAsk
         \/ Is("AskFor") /\ TAskFor
         \/ Is("Cut") /\ TCut
         \/ Is("Feas") /\ TFeas
         \/ Is("Best") /\ TBest
         \/ Is("Copy") /\ TCopy
         \/ Is("Level") /\ TLevel
         \/ Is("Tested") /\ TTested
         \/ Is("Searched") /\ TSearched
TView == l
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
