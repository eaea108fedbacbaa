--------------------------- MODULE ClassicSearch ---------------------------
(***************************************************************************)
(* The searches of the classic ellipsoid method (ellip/), between an       *)
(* oracle and an enclosing region.                                         *)
(*   "dc"        cuts through the centre when it is feasible, through the  *)
(*               violated constraint when it is not                        *)
(*   "discrete"  the same about a nearby point, seen from the centre       *)
(*   "algo"      always through the centre, whatever the region says       *)
(* A search ends when the region cannot or need not be cut, when its       *)
(* centre hardly moves, or at its limit.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
    kind, most,      \* which search, its limit
    cpc,             \* "idle", "ask", "cut", "ready"
    mid,             \* the centre of the region
    info,            \* the oracle's latest answer [ok, f, x, ahead]; ahead: g.(mid - x)
    bestx, bestf,    \* <<x>>, <<f>> of the best feasible point so far; <<>> before the first
    ending,          \* what will be reported
    hist             \* for the properties only
cvars == <<kind, most, cpc, mid, info, bestx, bestf, ending, hist>>

CONSTANTS Less(_, _), Plus(_, _)       \* on values

NoInfo == [ok |-> FALSE, f |-> 0, x |-> 0, ahead |-> 0]
SInit == /\ kind = "dc" /\ most = 0 /\ cpc = "idle" /\ mid = 0 /\ info = NoInfo
         /\ bestx = <<>> /\ bestf = <<>> /\ ending = "limit" /\ hist = <<>>
SBegin(k, m, x) == /\ cpc = "idle"
                   /\ kind' = k /\ most' = m /\ mid' = x /\ cpc' = "ask" /\ info' = NoInfo
                   /\ bestx' = <<>> /\ bestf' = <<>> /\ ending' = "limit" /\ hist' = <<>>
\* better(f): is f better than the best so far?
Better(f) == IF bestf = <<>> THEN TRUE ELSE Less(f, bestf[1])
SAsk(x, a) == /\ cpc = "ask" /\ Len(hist) < most /\ x = mid
              /\ info' = a
              /\ IF a.ok /\ Better(a.f)
                 THEN bestf' = <<a.f>> /\ bestx' = <<IF kind = "algo" THEN x ELSE a.x>>
                 ELSE UNCHANGED <<bestx, bestf>>
              /\ cpc' = "cut"
              /\ hist' = Append(hist, [x |-> x, a |-> a, beta |-> 0, verdict |-> "none", still |-> FALSE])
              /\ UNCHANGED <<kind, most, mid, ending>>
\* how deep the cut is that the answer calls for
Depth_ == IF kind = "algo" THEN 0
          ELSE IF kind = "dc" THEN (IF info.ok THEN 0 ELSE info.f)
          ELSE IF info.ok THEN info.ahead ELSE Plus(info.f, info.ahead)
Flag == IF bestf = <<>> THEN "notfound" ELSE "found"
\* the region's verdict, and whether its centre (now at x) has hardly moved
SCut(verdict, still, x) ==
    /\ cpc = "cut"
    /\ mid' = x
    /\ LET over == (verdict # "cut" /\ kind # "algo") \/ still
       IN  /\ cpc' = IF over THEN "ready" ELSE "ask"
           /\ ending' = IF over THEN Flag ELSE "limit"
    /\ hist' = [hist EXCEPT ![Len(hist)] = [@ EXCEPT !.beta = Depth_, !.verdict = verdict, !.still = still]]
    /\ UNCHANGED <<kind, most, info, bestx, bestf>>
SDone(status) ==
    /\ cpc = "ready" \/ (cpc = "ask" /\ Len(hist) = most)
    /\ status = ending
    /\ cpc' = "idle" /\ UNCHANGED <<kind, most, mid, info, bestx, bestf, ending, hist>>
-----------------------------------------------------------------------------
(* What the history must show. *)
Good == {i \in DOMAIN hist : hist[i].a.ok}
BestOfAll == /\ bestf = <<>> <=> Good = {}
             /\ Good # {} => \E i \in Good : /\ bestf = <<hist[i].a.f>>
                                             /\ bestx = <<IF kind = "algo" THEN hist[i].x ELSE hist[i].a.x>>
                                             /\ \A j \in Good : ~Less(hist[j].a.f, hist[i].a.f) /\ (j < i => Less(hist[i].a.f, hist[j].a.f))
Bounded == Len(hist) <= most
StopsRight == \A i \in DOMAIN hist : i < Len(hist) => ~hist[i].still /\ (hist[i].verdict = "cut" \/ kind = "algo")
EndsRight == cpc = "idle" /\ hist # <<>> =>
    /\ ending = "found" => Good # {}
    /\ ending = "notfound" => Good = {}
    /\ ending = "limit" <=> Len(hist) = most /\ ~hist[most].still /\ (hist[most].verdict = "cut" \/ kind = "algo")
=============================================================================
