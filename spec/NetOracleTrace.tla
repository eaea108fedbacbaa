--------------------------- MODULE NetOracleTrace ---------------------------
(* Recorded queries of the network oracles. *)
EXTENDS NetOracle, TraceBase

ASSUME SelfTest
VARIABLES samples,
    fine       \* which of the samples are acceptable, once worked out
Tol == RPow10(0-9)

TInit == OInit /\ samples = <<>> /\ fine = <<>> /\ l = 1
Fine == IF fine # <<>> THEN fine ELSE <<{k \in DOMAIN samples : Acceptable(samples[k])}>>
Keeps(x, ok, best) == \A k \in ok :
    form = "plain" \/ NotWorse(Value(samples[k]), best) => RLe(CutAt(ev.g, ev.f, x, samples[k]), Tol)
Ask(ok) ==
    LET x == ev.x
        good == Acceptable(x)
    IN  IF form = "plain"
        THEN /\ Chk("accepts-exactly-the-acceptable", ev.has <=> ~good)
             /\ ev.has => /\ Chk("cut-is-violated", RLt(0, ev.f) /\ VIsNum(ev.g))
                          /\ Chk("cut-keeps-acceptable-points", Keeps(x, ok, 0))
        ELSE /\ Chk("improves-exactly-when-better", ev.shrunk <=> (good /\ Better(Value(x), ev.t0)))
             /\ Chk("best-value", REq(ev.t1, IF ev.shrunk THEN Value(x) ELSE ev.t0))
             /\ Chk("cut-is-violated", VIsNum(ev.g) /\ (ev.shrunk \/ (RLe(0, ev.f) /\ (~good /\ Better(Value(x), ev.t0) => RLt(0, ev.f)))))
             /\ Chk("cut-keeps-better-points", Keeps(x, ok, ev.t1))
TNext ==
    \/ /\ Is("Begin") /\ samples' = ev.samples /\ fine' = <<>>
       /\ Setup(ev.n, [i \in DOMAIN ev.edges |-> [u |-> ev.edges[i][1], v |-> ev.edges[i][2]]], ev.form, ev.cost, ev.slope, ev.lev)
    \/ Is("Level") /\ Act("level", SetLevel(ev.t)) /\ fine' = <<>> /\ UNCHANGED samples
    \/ Is("Pot") /\ UNCHANGED <<ovars, samples, fine>>
    \/ /\ Is("Query") /\ UNCHANGED <<ovars, samples>>
       /\ LET s == Fine IN fine' = s /\ Chk("answer", Ask(s[1]))
TView == l
TSpec == TInit /\ [][TNext]_<<ovars, samples, fine, l>>
=============================================================================
