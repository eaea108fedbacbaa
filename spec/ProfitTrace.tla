---------------------------- MODULE ProfitTrace ----------------------------
(* Recorded questions to the profit oracles.  zs: points on which the cut is
   tried, in log scale, or integer points for the discrete form. *)
EXTENDS Profit, TraceBase
ASSUME SelfTest
tvars == <<pvars, l>>
TGrid == <<>>

\* size of the terms of the profit at y
Mass(y) == RAdd(Revenue(job, y), RAdd(Cost(job, y), 1))
E9 == RPow10(0-9)
Slack(y) == RMul(E9, Mass(y))
\* admissible, and better than t with some room for rounding
Better(z, t) == RLe(E9, Room(job, z)) /\ RLe(RAdd(t, Slack(z)), W(job, z))
CutTol(y, z) == RMul(RPow10(0-10), RAdd(1, RAdd(RAbs(ev.f), RSumSeq([i \in 1..2 |-> RAbs(RMul(ev.g[i], RSub(z[i], y[i])))]))))
KeptBy(y, z) == RLe(RAdd(ev.f, Ahead(ev.g, y, z)), CutTol(y, z))
Points == ev.zs
Kept(zs) == \A k \in DOMAIN zs : KeptBy(ev.y, zs[k]) \/ ~Better(zs[k], ev.after)

Value(z) ==     \* what is said about the best value, found at z
    IF ev.improved
    THEN /\ Chk("improves-only-where-admissible", RLe(RNeg(E9), Room(job, z)))
         /\ Chk("improves-only-on-better", RLe(ev.best, RAdd(W(job, z), Slack(z))) /\ RLe(ev.best, RAdd(ev.after, RMul(E9, RAdd(1, RAbs(ev.best))))))
         /\ Chk("best-is-the-profit-attained", RLe(RAbs(RSub(ev.after, W(job, z))), Slack(z)))
    ELSE Chk("best-is-left-alone", REq(ev.after, ev.best))

Answer == /\ Chk("numbers", VIsNum(ev.g) /\ RIsNum(ev.f) /\ RIsNum(ev.after))
          /\ Chk("best", Value(ev.y))
          /\ Chk("cut-keeps-better-points", Kept(<<ev.y>> \o Points))
          /\ Chk("cut-reaches-the-point", RLe(0, ev.f))
Integer(z) == \A i \in 1..2 : LET x == Exp(z[i]) r == RFloor(RAdd(x, "0.5")) IN RLe(1, r) /\ RLe(RAbs(RSub(x, r)), RMul(E9, x))
Ints == [k \in DOMAIN ev.zs |-> <<Log(ev.zs[k][1]), Log(ev.zs[k][2])>>]
\* the cut found at yd, read with the offset taken the wrong way round
WrongOffset ==
    LET z == ev.yd
        right == IF RLt(Room(job, z), 0) THEN RNeg(Room(job, z))
                 ELSE IF ev.improved THEN 0 ELSE Phi(job, z, ev.best)
        g == IF RLt(Room(job, z), 0) THEN <<1, 0>> ELSE Tangent(job, z, ev.after)
    IN  /\ RLe(RAbs(RSub(ev.f, RAdd(right, Ahead(ev.g, ev.y, z)))), CutTol(ev.y, z))
        /\ \A i \in 1..2 : RClose(ev.g[i], g[i], E9)
AnswerInteger ==
    /\ Chk("numbers", VIsNum(ev.g) /\ RIsNum(ev.f) /\ RIsNum(ev.after) /\ VIsNum(ev.yd) /\ Len(ev.yd) = 2)
    /\ Chk("returns-an-integer-point", Integer(ev.yd))
    /\ Chk("the-point-it-evaluated", Value(ev.yd))
    /\ Chk("retry-only-once", ev.more = ~ev.retry)
    /\ IF Kept(Ints) THEN TRUE
       ELSE Chk("cut-keeps-better-integer-points", WrongOffset /\ Deviates("profit-q-offset"))

TInit == PInit /\ l = 1
TNext ==
    \/ Is("Begin") /\ PBegin([form |-> ev.form, p |-> ev.p, A |-> ev.A, k |-> ev.k, a |-> ev.a, v |-> ev.v, e |-> ev.box, e3 |-> ev.e3], 0)
    \/ /\ Is("Ask") /\ at' = ev.y /\ best' = ev.after /\ UNCHANGED <<job, yd, turn, said>>
       /\ Chk("answer", Answer)
    \/ /\ Is("AskInteger") /\ at' = ev.y /\ best' = ev.after /\ yd' = ev.yd /\ UNCHANGED <<job, said>>
       /\ (ev.retry => turn = "retry") /\ turn' = IF ev.retry THEN "ask" ELSE "retry"
       /\ Chk("answer", AnswerInteger)
TView == l
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
