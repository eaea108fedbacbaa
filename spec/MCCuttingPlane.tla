--------------------------- MODULE MCCuttingPlane ---------------------------
(***************************************************************************)
(* Exhaustive exploration of CuttingPlane for one driver: every limit in   *)
(* Limits, every answer of the oracle and every verdict of the space.      *)
(* Every complete behaviour is also printed as a scenario, which the       *)
(* harness replays into the real driver.                                   *)
(***************************************************************************)
EXTENDS CuttingPlane, TLC, Json

CONSTANTS Mode, Limits, MaxAsks

\* oracle answers: improvements lower the value by one each
Answers ==
    LET k == calls + 1
        A(c, s, al) == [cut |-> c, v |-> IF s THEN value - 1 ELSE value, x0 |-> 100 + k,
                        shrunk |-> s, alt |-> al]
    IN  CASE Mode = "feas" -> {A(NoPoint, FALSE, FALSE), A(k, FALSE, FALSE)}
          [] Mode = "dc"   -> {A(k, s, FALSE) : s \in BOOLEAN}
          [] Mode = "q"    -> {A(k, s, al) : s \in BOOLEAN, al \in BOOLEAN}

Results == [feasible : BOOLEAN, iters : {calls, calls + 1}, status : Verdicts \cup {"smallenough"},
            best : {best, centre}, value : {value}]

Next ==
    \/ log = <<>> /\ \E k \in Limits : Begin(Mode, k, 0, 10)
    \/ calls < MaxAsks /\ \E a \in Answers : Ask(centre, value, retry, a)
    \/ \E verdict \in Verdicts, small \in BOOLEAN :
          Apply(pending, verdict, small, IF verdict = "success" THEN centre + 1 ELSE centre)
    \/ \E r \in Results : Finish(r)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* with the limit within reach the driver always comes to an end
Terminates == \A k \in Limits : (maxit = k /\ k <= MaxAsks /\ log # <<>>) => <>Finished
AlwaysEnds == []((log # <<>> /\ maxit <= MaxAsks) => <>Finished)

Properties == /\ Bounded /\ AsksCurrent /\ CutsAppliedOnce /\ StopsInTime /\ FeasReported
              /\ BestReported /\ RetriesRight /\ StatusRight

\* one scenario: mode, limit, and the answers and verdicts in order
Steps == [i \in 1..Len(Asks) |->
            <<Asks[i].a.cut # NoPoint, Asks[i].a.shrunk, Asks[i].a.alt,
              IF i <= Len(Applies) THEN Applies[i].verdict ELSE "success",
              IF i <= Len(Applies) THEN Applies[i].small ELSE FALSE>>]
Emit == Finished /\ Res.iters = (IF Len(Applies) = calls /\ LimitReached THEN calls + 1 ELSE calls)
          => PrintT("@@" \o ToJson(<<mode, maxit, Steps>>))
=============================================================================
