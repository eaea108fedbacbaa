---------------------------- MODULE LowpassTrace ----------------------------
(* Recorded queries to the filter oracle. *)
EXTENDS Lowpass, TraceBase
ASSUME SelfTest
tvars == <<lvars, l>>
TGrid == {}

Size(row, y) == VDot([i \in DOMAIN row |-> RAbs(row[i])], [i \in DOMAIN y |-> RAbs(y[i])])
Tol(c) == IF ev.exact THEN 0
          ELSE RMul(RPow10(0-12), RAdd(Size(c.row, ev.x), RAdd(RAbs(c.lo), IF RIsNum(c.hi) THEN RAbs(c.hi) ELSE 0)))
Near(a, b, t) == RLe(RAbs(RSub(a, b)), t)
NearlyMeets(c) == LET v == Resp(c.row, ev.x) t == Tol(c)
                  IN  RLe(c.lo, RAdd(v, t)) /\ (RIsNum(c.hi) => RLe(RSub(v, t), c.hi))
Is1(c, cut) == /\ \A i \in DOMAIN cut.g : REq(cut.g[i], ev.g[i])
               /\ Len(cut.f) = Len(ev.f) /\ \A i \in DOMAIN cut.f : Near(cut.f[i], ev.f[i], Tol(c))
\* the answer is this constraint, and x violates it
Refuted(c) ==
    /\ IF RIsNum(c.hi) /\ Is1(c, CutHigh(c, ev.x)) THEN TRUE ELSE Is1(c, CutLow(c, ev.x))
    /\ RLt(0, ev.f[1])
Answer ==
    LET cons == AllCons(spec, Len(ev.x), ev.best)
    IN  IF ev.improved
        THEN /\ Chk("improves-only-at-a-design", \A k \in DOMAIN cons : NearlyMeets(cons[k]))
             /\ LET v == Value(spec, ev.x)
                    t == RMaxSeq([k \in DOMAIN spec.As |-> Tol(Stop(spec, v)[k])])
                IN  /\ Chk("best-is-its-largest-response", Near(ev.after, v, t))
                    /\ Chk("objective-cut", Len(ev.f) = 2 /\ Near(ev.f[1], 0, t) /\ Near(ev.f[2], v, t) /\
                            \E k \in DOMAIN spec.As : (\A i \in DOMAIN ev.g : REq(ev.g[i], spec.As[k][i])) /\ Near(Resp(spec.As[k], ev.x), v, t))
        ELSE /\ Chk("best-is-left-alone", REq(ev.after, ev.best))
             /\ Chk("cut-is-a-violated-constraint", Len(ev.f) \in {1, 2} /\ Len(ev.g) = Len(ev.x) /\ \E k \in DOMAIN cons : Refuted(cons[k]))

TInit == LInit /\ l = 1
TNext ==
    \/ Is("Begin") /\ LBegin([Ap |-> ev.Ap, As |-> ev.As, Anr |-> ev.Anr, L |-> ev.L, U |-> ev.U], 0)
    \/ /\ Is("Ask") /\ x' = ev.x /\ best' = ev.after /\ UNCHANGED <<spec, ptr, said>>
       /\ Chk("answer", Answer)
TView == l
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
