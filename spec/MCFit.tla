------------------------------- MODULE MCFit -------------------------------
(* Small problems, every point of a grid, histories of some questions. *)
EXTENDS Fit, TLC, Json
CONSTANTS Forms, Sites, Data, Coefs, Levels, Degree, Start, Depth
VARIABLES hist
On(q) == [i \in DOMAIN q |-> <<q[i]>>]
S2 == {On(<<"0", "1">>), On(<<"0", "2.5">>)}
Y2 == {<<<<"2", "1">>, <<"1", "2">>>>, <<<<"3", "1">>, <<"1", "1">>>>, <<<<"1", "2">>, <<"2", "1">>>>, <<<<"1", "1">>, <<"1", "1">>>>, <<<<"0.5", "-0.25">>, <<"-0.25", "0.75">>>>}
S3 == {On(<<"0", "1", "3">>), On(<<"0", "2", "1">>), <<<<"0", "0">>, <<"3", "0">>, <<"0", "4">>>>}
Y3 == {<<<<"3", "1", "1">>, <<"1", "2", "0">>, <<"1", "0", "2">>>>, <<<<"2", "1", "1">>, <<"1", "2", "1">>, <<"1", "1", "2">>>>, <<<<"2", "1", "0">>, <<"1", "1", "1">>, <<"0", "1", "2">>>>}
C2 == {"-1", "1", "2", "4"} \X {"-1", "-0.5", "0", "0.5"}
C2t == {"-1", "0", "0.5", "1", "2", "4"} \X {"-2", "-1", "-0.5", "-0.25", "0", "0.5", "1"}
C3 == {"1", "2", "4"} \X {"-1.5", "-0.5", "0"} \X {"0", "0.125"}
C3t == {"0", "1", "2", "4"} \X {"-1.5", "-1", "-0.5", "0"} \X {"0", "0.125", "0.25"}
L3 == {"0.25", "1", "4"}
L4 == {"0.0625", "0.25", "1", "4", "16"}
Big == "1000000"
With(C) == {x \o <<t>> : x \in C, t \in Levels}
\* both forms ask about points of this grid
G(f) == IF f = "least" THEN With(Coefs) ELSE Coefs
MInit == FInit /\ hist = <<>>
MNext == \/ /\ job.form = "none"
            /\ \E f \in Forms, s \in Sites, y \in Data : FBegin(f, s, y, Degree, Start) /\ hist' = <<s, y>>
         \/ /\ job.form # "none" /\ Len(hist) < 2 + Depth
            /\ \E p \in G(job.form) : (AskLeast(p) \/ AskLikely(p)) /\ hist' = Append(hist, p)
MSpec == MInit /\ [][MNext]_<<fvars, hist>>
MView == <<fvars, Len(hist)>>
NeverStuck == (job.form # "none" /\ Len(hist) < 2 + Depth) => \A p \in G(job.form) : ENABLED (AskLeast(p) \/ AskLikely(p))
Emit == Len(hist) = 2 => PrintT("@@" \o ToJson(<<job.form, job.s, job.Y, Degree>>))
=============================================================================
