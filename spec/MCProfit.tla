------------------------------ MODULE MCProfit ------------------------------
EXTENDS Profit, TLC, Json, SequencesExt
CONSTANTS Forms, Jobs, Starts, Points, Ints, Depth
VARIABLES hist
J(p, A, k, a, v, e, e3) == [form |-> "", p |-> p, A |-> A, k |-> k, a |-> a, v |-> v, e |-> e, e3 |-> e3]
J3 == {J("20", "40", "30.5", <<"0.1", "0.4">>, <<"10", "35">>, <<"0.003", "0.007">>, "1"),
       J("8", "4", "3.5", <<"0.5", "0.25">>, <<"2", "3">>, <<"0.125", "0.0625">>, "0.5"),
       J("5", "3", "2", <<"0.75", "0.5">>, <<"1.5", "4">>, <<"0.25", "0.25">>, "0.25")}
F1 == {"plain", "robust"}
F2 == {"discrete"}
S2 == {"0", "2.5"}
P1s == {"-1", "0", "1", "1.5", "3.5"} \X {"-2", "0", "1", "2.25"}
P0s == {"0", "1", "3.5"} \X {"-2", "1", "2.25"}
G0 == SetToSeq({"-2", "0", "0.5", "1", "1.25", "3"} \X {"-1", "0", "1", "1.5", "2.5"})
P2s == {"0", "0.75", "1", "1.5", "3.5"} \X {"-1", "0", "1", "1.75"}
P1t == {"-3", "-1", "0", "0.5", "1", "1.5", "2.5", "3.5"} \X {"-2", "-1", "0", "0.5", "1", "2.25"}
G1 == SetToSeq({"-2", "-1", "0", "0.5", "1", "1.25", "2", "3"} \X {"-2", "-1", "0", "0.5", "1", "1.5", "2", "3"})
I1 == <<>>
I4 == {1, 2, 3, 5, 30} \X {1, 2, 4}
I0 == {1, 3, 30} \X {1, 4}
LogI0 == LET q == SetToSeq(I0) IN [k \in DOMAIN q |-> <<Log(q[k][1]), Log(q[k][2])>>]
LogI == LET q == SetToSeq(I4) IN [k \in DOMAIN q |-> <<Log(q[k][1]), Log(q[k][2])>>]
MInit == PInit /\ hist = <<>>
MNext == \/ job.form = "none" /\ \E f \in Forms, j \in Jobs, t \in Starts :
                PBegin([j EXCEPT !.form = f, !.e3 = IF f = "robust" THEN @ ELSE 0], t) /\ hist' = <<[p |-> j, f |-> f, t |-> t]>>
         \/ /\ job.form # "none" /\ Len(hist) <= Depth
            /\ \E y \in Points :
                 \/ PAsk(y) /\ hist' = Append(hist, <<0, y[1], y[2]>>)
                 \/ \E i \in DOMAIN Ints : PAskInteger(y, Ints[i]) /\ hist' = Append(hist, <<0, y[1], y[2]>>)
                 \/ PRetry(y) /\ hist' = Append(hist, <<1, y[1], y[2]>>)
MSpec == MInit /\ [][MNext]_<<pvars, hist>>
NeverStuck == (job.form # "none" /\ Len(hist) <= Depth) => \A y \in Points : ENABLED PAsk(y) \/ ENABLED (\E i \in DOMAIN Ints : PAskInteger(y, Ints[i]))
Emit == Len(hist) = Depth + 1 =>
    LET j == hist[1].p IN PrintT("@@" \o ToJson(<<hist[1].f, j.p, j.A, j.k, j.a, j.v, j.e, j.e3, hist[1].t, [k \in 1..Depth |-> hist[k + 1]]>>))
=============================================================================
