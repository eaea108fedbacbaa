---------------------------- MODULE AdaptorTrace ----------------------------
(* Recorded runs of the bisection adaptor over mock and real search spaces. *)
EXTENDS Adaptor, TraceBase, Rat

VARIABLES x0, s0
TInit == AInit /\ l = 1 /\ x0 = 0 /\ s0 = 0
TNext ==
    \/ /\ Is("Begin") /\ ABegin(ev.x, ev.shape, ev.maxit, ev.tol) /\ x0' = ev.x /\ s0' = ev.shape
    \/ /\ UNCHANGED <<x0, s0>>
       /\ \/ Is("Test") /\ Test(ev.t)
          \/ Is("Level") /\ Act("oracle-told-the-tested-level-first", Tell(ev.t))
          \/ Is("Elsewhere") /\ Elsewhere(ev.t)
          \/ Is("Ask") /\ Act("inner-query", InnerAsk(ev.x, ev.cut = NoPoint, ev.cut))
          \/ /\ Is("Apply")
             /\ Chk("works-on-a-copy", ev.copy)
             /\ Act("inner-update", InnerApply(ev.c, ev.verdict, RLt(ev.tsq, opts.tol), ev.x))
          \/ /\ Is("Answer")
             /\ Chk("answer-iff-accepted", ev.yes = found)
             /\ Chk("shape-kept", ev.shape = start.shape)
             /\ Chk("centre-is-the-feasible-point", ev.x = IF ev.yes THEN centre ELSE start.x)
             /\ Act("answer", Answer(ev.yes, ev.x, ev.shape, ev.best))
TView == l
TSpec == TInit /\ [][TNext]_<<avars, x0, s0, l>>
TProps == BestIsLatest(x0) /\ ShapeKept(s0) /\ ToldFirst
=============================================================================
