----------------------------- MODULE MCAdaptor -----------------------------
(* All behaviours of the adaptor: up to MaxTests tests of up to MaxAsks inner
   questions each, the last at a new level or at the one before, with or
   without another use of the oracle in between; printed as scenarios. *)
EXTENDS Adaptor, TLC, Json

CONSTANTS MaxTests, MaxAsks, Limit

VARIABLES tests, script

MInit == AInit /\ tests = -1 /\ script = <<>>
AddTo(s, x) == [s EXCEPT ![Len(s)] = Append(@, x)]
MNext ==
    \/ tests = -1 /\ ABegin(0, 7, Limit, 1) /\ tests' = 0 /\ UNCHANGED script
    \/ /\ tests \in 0..(MaxTests-1)
       /\ \E same \in BOOLEAN :
            /\ same => tests > 0 /\ tests = MaxTests - 1
            /\ Test(IF same THEN level ELSE 50 - tests)
            /\ script' = Append(script, << <<IF same THEN "same" ELSE "new", heard = <<99>> >> >>)
       /\ tests' = tests + 1
    \/ tests = MaxTests - 1 /\ heard # <<99>> /\ Elsewhere(99) /\ UNCHANGED <<tests, script>>
    \/ ~Told /\ Tell(level) /\ UNCHANGED <<tests, script>>
    \/ calls < MaxAsks /\ \E yes \in BOOLEAN : InnerAsk(centre, yes, calls + 1) /\ UNCHANGED tests
            /\ script' = IF yes THEN AddTo(script, <<"yes", FALSE>>) ELSE script
    \/ \E v \in Verdicts, s \in BOOLEAN :
            /\ InnerApply(pending, v, s, IF v = "success" THEN centre + 1 ELSE centre)
            /\ UNCHANGED tests
            /\ script' = AddTo(script, <<v, s>>)
    \/ \E yes \in BOOLEAN, x \in {centre, start.x} : Answer(yes, x, 7, x) /\ UNCHANGED <<tests, script>>

MSpec == MInit /\ [][MNext]_<<avars, tests, script>>

Properties == tests >= 0 => BestIsLatest(0) /\ ShapeKept(7) /\ ToldFirst /\ Bounded /\ AsksCurrent /\ CutsAppliedOnce
Emit == (~testing /\ tests = MaxTests) => PrintT("@@" \o ToJson(<<Limit, script>>))
=============================================================================
