---------------------------- MODULE ClassicTrace ----------------------------
(* Recorded searches of the classic ellipsoid method: with scripted oracles    *)
(* and regions; cuts of the real ellipsoid alone; and geometric programs       *)
(* solved with it.                                                             *)
EXTENDS Ellipsoid, TraceBase, FiniteSets

VARIABLES kind, most, cpc, mid, info, bestx, bestf, ending, hist,
    tol,         \* what "hardly moves" is
    region,      \* the real ellipsoid [x, P, start], or [x |-> <<>>] when scripted
    prob         \* the geometric program: objective, constraints; <<>> when scripted
S == INSTANCE ClassicSearch WITH Less <- RLt, Plus <- RAdd
F == INSTANCE Posy WITH n <- 0, mono <- <<>>, posy <- <<>>
svars == <<kind, most, cpc, mid, info, bestx, bestf, ending, hist>>
tvars == <<svars, tol, region, prob, spaces, points, l>>
ASSUME SelfTest
Tol == RPow10(0 - 9)
NoRegion == [x |-> <<>>, P |-> <<>>]

Close(a, b, P, t) ==
    /\ \A i \in DOMAIN a.x : RLe(RAbs(RSub(a.x[i], b.x[i])), RAdd(RMul(t, RSqrt(P[i][i])), RMul(RPow2(-45), RAbs(b.x[i]))))
    /\ \A i \in DOMAIN P, j \in DOMAIN P : RLe(RSq(RSub(a.P[i][j], b.P[i][j])), RMul(RSq(t), RMul(P[i][i], P[j][j])))
Same(a, b) == a.x = b.x /\ a.P = b.P
Now == [x |-> ev.x, P |-> ev.P]

\* a region made from one size or from one for each direction
TMake == LET start == [x |-> ev.x0, P |-> MDiag(ev.d)]
         IN  /\ Chk("constructed-as-asked", Close(Now, start, start.P, RPow10(0-13)))
             /\ region' = Now /\ prob' = ev.prob
             /\ points' = <<ev.pts>> /\ UNCHANGED <<svars, tol, spaces>>

\* what a cut of the real region must do
\* a cut almost conjugate to the shape loses digits, and so does a flat shape
Mass(P, g) == RSumSeq([i \in DOMAIN g |-> RMul(RAbs(g[i]), RSqrt(P[i][i]))])
Loss(P, g) == RMax(Tol, RMul(RPow10(0-13), RDiv(RSq(Mass(P, g)), Size(P, g))))
RECURSIVE Product(_, _)
Product(P, i) == IF i = 0 THEN 1 ELSE RMul(P[i][i], Product(P, i - 1))
Flatness(P) == RDiv(MDet(P), Product(P, Len(P)))
Solid(P) == RLt(RPow10(0-11), Flatness(P))
Held(x, P, ps) == Solid(P) => LET e == RAdd(RPow10(0-6), RDiv(RPow10(0-13), Flatness(P))) IN \A i \in DOMAIN ps : Inside(x, P, ps[i], e)
Word(v) == CASE v = "cut" -> "success" [] v = "nosolution" -> "nosoln" [] v = "noeffect" -> "noeffect"
CutRight(g, beta, verdict) ==
    LET s == region n == Len(s.x) tau == RSqrt(Size(s.P, g)) hi == High(tau, beta) t == Loss(s.P, g)
    IN  /\ Chk("finite", VIsNum(ev.x) /\ MIsNum(ev.P))
        /\ Chk("verdict", Word(verdict) \in Verdict(n, 0-1, hi, t))
        /\ IF verdict = "cut" THEN Chk("smallest-ellipsoid", Close(Now, After(s.x, s.P, g, tau, 0-1, hi), s.P, t))
                                   /\ Chk("positive-definite", Solid(s.P) => MPosDef(ev.P))
           ELSE Chk("refused-cut-changes-nothing", Same(Now, s))
TCutAlone ==
    /\ CutRight(ev.g, ev.beta, ev.verdict)
    /\ region' = Now
    /\ points' = <<IF ev.verdict = "cut" THEN SelectSeq(points[1], LAMBDA p : Keeps(region.x, ev.g, ev.beta, None, p)) ELSE points[1]>>
    /\ Chk("no-point-lost", Held(ev.x, ev.P, points'[1]))
    /\ UNCHANGED <<svars, tol, prob, spaces>>
-----------------------------------------------------------------------------
Terms(s) == [j \in DOMAIN s |-> F!Term(s[j].c, s[j].a)]
LogAt(s, y) == LET L == F!LogTerms(Terms(s), y) IN F!ValueOf(L, F!Scaled(L))
GradAt(s, y) == LET L == F!LogTerms(Terms(s), y) IN F!GradientOf(Terms(s), F!Scaled(L), Len(y))
Near(a, b) == RClose(a, b, RPow10(0-10))
\* the answer is about constraint i (the objective for i = 1)
About(i, y, a) == /\ Near(a.f, LogAt(prob[i], y))
                  /\ LET g == GradAt(prob[i], y) IN \A m \in DOMAIN y : Near(a.g[m], g[m])
Constraints == 2..Len(prob)
AnswerRight(y, a) ==
    IF prob = <<>> THEN TRUE
    ELSE /\ a.nx = y
         /\ IF a.ok THEN About(1, y, a) /\ \A i \in Constraints : RLe(LogAt(prob[i], y), Tol)
            ELSE \E i \in Constraints : About(i, y, a) /\ RLt(RNeg(Tol), LogAt(prob[i], y))
Feasible(p) == \A i \in Constraints : RLe(LogAt(prob[i], p), RNeg(Tol))
\* better than all that was found, admissible, and within the start
Wanted(p, best) == prob # <<>> /\ Feasible(p) /\ (best = <<>> \/ RLt(RAdd(LogAt(prob[1], p), Tol), best[1]))

TSearch == /\ S!SBegin(ev.kind, ev.most, ev.x) /\ tol' = ev.tol /\ UNCHANGED <<region, prob, spaces, points>>
TAsk == /\ Chk("asks-about-the-centre", ev.x = mid)
        /\ Chk("asks-within-the-limit", Len(hist) < most)
        /\ Chk("answer-of-the-program", AnswerRight(ev.x, ev))
        /\ Act("ask", S!SAsk(ev.x, [ok |-> ev.ok, f |-> ev.f, x |-> ev.nx, ahead |-> ev.ahead, g |-> ev.g]))
        /\ UNCHANGED <<tol, region, prob, spaces, points>>
\* asked outside any search
TProbe == /\ Chk("answer-of-the-program", AnswerRight(ev.x, [ok |-> ev.ok, f |-> ev.f, nx |-> ev.nx, g |-> ev.g]))
          /\ UNCHANGED <<svars, tol, region, prob, spaces, points>>
Norm2(u) == VDot(u, u)
TCut == /\ Chk("cuts-where-the-oracle-says", ev.g = info.g)
        /\ Chk("cuts-as-deep-as-it-is", REq(ev.beta, S!Depth_))
        /\ LET moved == Norm2(VSub(ev.x, mid)) t2 == RSq(tol) doubt == region.x # <<>> /\ RRel(moved, t2, Tol)
           IN  \E still \in {RLt(moved, t2)} \cup (IF doubt THEN BOOLEAN ELSE {}) : Act("cut", S!SCut(ev.verdict, still, ev.x))
        /\ IF region.x = <<>> THEN UNCHANGED <<region, points>>
           ELSE /\ CutRight(ev.g, ev.beta, ev.verdict)
                /\ region' = Now
                /\ points' = <<SelectSeq(points[1], LAMBDA p : Wanted(p, bestf))>>
                /\ Chk("no-better-point-lost", ev.verdict # "nosolution" /\ kind # "algo" => Held(ev.x, ev.P, points'[1]))
                /\ Chk("none-left-when-it-says-so", ev.verdict = "nosolution" => points'[1] = <<>>)
        /\ UNCHANGED <<tol, prob, spaces>>
TDone == /\ Act("done", S!SDone(ev.status))
         /\ Chk("reports-the-best", IF bestf = <<>> THEN ~ev.had ELSE ev.had /\ REq(ev.bf, bestf[1]) /\ ev.bx = bestx[1])
         /\ UNCHANGED <<tol, region, prob, spaces, points>>

TInit == S!SInit /\ tol = 0 /\ region = NoRegion /\ prob = <<>> /\ spaces = <<>> /\ points = << <<>> >> /\ l = 1
TNext ==
    \/ /\ Is("Begin") /\ kind' = "dc" /\ most' = 0 /\ cpc' = "idle" /\ mid' = 0 /\ info' = S!NoInfo /\ bestx' = <<>> /\ bestf' = <<>>
       /\ ending' = "limit" /\ hist' = <<>> /\ tol' = 0 /\ region' = NoRegion /\ prob' = <<>> /\ points' = << <<>> >> /\ UNCHANGED spaces
    \/ Is("Make") /\ TMake
    \/ Is("Alone") /\ TCutAlone
    \/ Is("Probe") /\ TProbe
    \/ Is("Search") /\ TSearch
    \/ Is("Ask") /\ TAsk
    \/ Is("Cut") /\ TCut
    \/ Is("Done") /\ TDone
TView == l
TSpec == TInit /\ [][TNext]_tvars
Promises == S!BestOfAll /\ S!Bounded /\ S!StopsRight /\ S!EndsRight
=============================================================================
