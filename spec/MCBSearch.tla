----------------------------- MODULE MCBSearch -----------------------------
(* All small integer and dyadic brackets, thresholds, limits and tolerances. *)
EXTENDS BSearch, TLC, Json

CONSTANTS Lows, Widths, Limits

LowsQuick == {0-3, 0, 2}
LowsMore == {0-7, 0-3, 0-1, 0, 1, 2, 5}

VARIABLE thr

MInit == Init /\ thr = 0
MNext ==
    \/ /\ pc = "idle"
       /\ \E k \in {"int", "real"}, a \in Lows, w \in Widths, m \in Limits, j \in 0..9 :
             \E e \in IF k = "int" THEN {"1e-8", "2"} ELSE {"0.25", "0.1"} :
                /\ IF k = "int" THEN Begin(k, a, a + w, e, m) ELSE Begin(k, RDiv(a, 2), RDiv(a + w, 2), e, m)
                /\ thr' = IF k = "int" THEN a + j ELSE RAdd(RDiv(a, 2), RDiv(j, 3))
    \/ /\ pc = "run" /\ UNCHANGED thr
       /\ \/ LET t == RAdd(lo, Half) IN Ask(t, RLe(thr, t))
          \/ \E st \in {"smallenough", "success"}, f \in BOOLEAN :
                Finish([feasible |-> f, iters |-> calls + 1, status |-> st, lo |-> lo, hi |-> hi])

MSpec == MInit /\ [][MNext]_<<vars, thr>>

Properties ==
    pc # "idle" => /\ Bracketed(thr) /\ Halves /\ InsideOnly /\ LimitKept /\ ExactForIntegers(thr)
\* every step asks one of at most maxit questions or ends the search, so with
\* LimitKept the search ends if it is never stuck
NeverStuck == pc = "run" => ENABLED MNext

Emit == pc = "done" => PrintT("@@" \o ToJson(<<kind, RShow(lo0), RShow(hi0), RShow(thr), maxit, RShow(tol)>>))
=============================================================================
