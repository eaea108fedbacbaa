------------------------------ MODULE LdltTrace ------------------------------
(* Recorded factorizations, several on one object. *)
EXTENDS Ldlt, TraceBase

ASSUME SelfTest
VARIABLES seen   \* what the last factorization answered
tvars == <<fvars, seen, l>>

Nothing == [ok |-> FALSE, start |-> 0, stop |-> 0, v |-> <<>>]
MaxAbs(m) == RMaxSeq([i \in DOMAIN m |-> RMaxSeq([j \in DOMAIN m |-> RAbs(m[i][j])])])
\* the row at which a plain factorization has to stop; n + 1: nowhere
FirstBad(q) == CHOOSE k \in 1..(Len(q) + 1) : (k > Len(q) \/ RLe(q[k], 0)) /\ \A j \in 1..(k - 1) : RLt(0, q[j])
RECURSIVE PivotsTo(_, _, _, _)     \* pivots up to the first that is not positive
PivotsTo(m, k, prev, got) ==
    IF k > Len(m) THEN got
    ELSE LET d == MDet(Block(m, 0, k)) p == RDiv(d, prev)
         IN  IF RLe(p, 0) THEN Append(got, p) ELSE PivotsTo(m, k + 1, d, Append(got, p))
\* with semidefinite matrices allowed, a zero pivot starts the process afresh;
\* behind it a pivot may be within rounding of zero, and then anything may follow
Small(m, p) == RLe(RAbs(p), RMul(RPow10(0-6), MaxAbs(m)))
RECURSIVE SemiRows(_, _, _, _)
SemiRows(m, k, from, prev) ==
    IF k > Len(m) THEN [sure |-> TRUE, ok |-> TRUE, start |-> from, stop |-> 0]
    ELSE LET d == MDet(Block(m, from, k)) p == RDiv(d, prev)
         IN  IF from > 0 /\ k > from + 1 /\ Small(m, p) THEN [sure |-> FALSE]
             ELSE IF RLt(p, 0) THEN [sure |-> TRUE, ok |-> FALSE, start |-> from, stop |-> k]
             ELSE IF REq(p, 0) THEN SemiRows(m, k + 1, k, 1) ELSE SemiRows(m, k + 1, from, d)
\* decided beyond rounding?
Pow2(x) == \E k \in (0 - 9)..9 : REq(x, RPow2(k))
Clear(q, m, exact) ==
    \/ exact = "all"
    \/ exact = "small" /\ \A k \in 1..(Len(q) - 1) : Pow2(q[k])     \* small integers: no rounding so far
    \/ \A k \in DOMAIN q : RLt(RMul(RPow10(0-6), MaxAbs(m)), RAbs(q[k]))

\* sum of |a_ij| |v_i| |v_j|
Mass(b, v) == RSumSeq([i \in DOMAIN v |-> RMul(RAbs(v[i]), VDot([j \in DOMAIN v |-> RAbs(b[i][j])], [j \in DOMAIN v |-> RAbs(v[j])]))])
Agrees(b, v, x) == RLe(RAbs(RSub(MQuad(b, v), x)), RMul(RPow10(0-8), RAdd(Mass(b, v), RAbs(x))))

TInit == FInit /\ seen = Nothing /\ l = 1
Keep == UNCHANGED <<row, start, L, D, fpc>>
Answer ==
    LET m == ev.A
        q == PivotsTo(m, 1, 1, <<>>)
        bad == FirstBad(q)
    IN  /\ Chk("says-what-it-answered", ev.ret = ev.spd)
        /\ IF ~Clear(q, m, ev.exact) THEN TRUE
           ELSE /\ Chk("accepts-the-positive-definite", bad > Len(m) => ev.ret)
                /\ Chk("rejects-the-others", (bad <= Len(m) /\ ~ev.semi) => ~ev.ret)
                /\ Chk("rejects-the-indefinite", (bad <= Len(m) /\ RLt(q[bad], 0)) => ~ev.ret)
                /\ Chk("looks-at-leading-rows-only", (~ev.ret /\ ~ev.semi) => ev.rows <= bad)
        /\ (ev.semi /\ ev.exact = "all") => Chk("starts-afresh-behind-a-zero-pivot", LET a == SemiRows(m, 1, 0, 1) IN
               a.sure => ev.ret = a.ok /\ (~a.ok => ev.start = a.start /\ ev.stop = a.stop))
        /\ Chk("range", ev.ret \/ (ev.start < ev.stop /\ ev.stop <= Len(m) /\ ev.rows <= ev.stop))
TNext ==
    \/ Is("Begin") /\ A' = <<>> /\ semi' = FALSE /\ seen' = Nothing /\ Keep
    \/ /\ Is("Factor") /\ A' = ev.A /\ semi' = ev.semi /\ Keep
       /\ Chk("answer", Answer)
       /\ seen' = [ok |-> ev.ret, start |-> ev.start, stop |-> ev.stop, v |-> <<>>]
    \/ /\ Is("Witness") /\ ~seen.ok /\ UNCHANGED <<A, semi>> /\ Keep
       /\ LET v == SubSeq(ev.v, seen.start + 1, seen.stop)
              b == Block(A, seen.start, seen.stop)
          IN  /\ Chk("witness-is-not-nothing", VIsNum(v) /\ \E k \in DOMAIN v : ~REq(v[k], 0))
              /\ Chk("reported-value-not-negative", RLe(0, ev.ep) /\ (semi => RLt(0, ev.ep)))
              /\ Chk("witness-proves-it", Agrees(b, v, RNeg(ev.ep)))
              /\ Chk("quadratic-form", Agrees(b, v, ev.quad))
              /\ seen' = [seen EXCEPT !.v = v]
    \/ /\ Is("Quad") /\ UNCHANGED <<A, semi, seen>> /\ Keep       \* of another matrix
       /\ Chk("quadratic-form-of-another-matrix", Agrees(Block(ev.M, seen.start, seen.stop), seen.v, ev.q))
    \/ /\ Is("Sqrt") /\ seen.ok /\ UNCHANGED <<A, semi, seen>> /\ Keep
       /\ LET R == ev.R
          IN  /\ Chk("root-is-upper-triangular", \A i \in DOMAIN R : \A j \in 1..(i - 1) : REq(R[i][j], 0))
              /\ Chk("root-gives-back-the-matrix", MIsNum(R) /\ LET P == MMul(MTrans(R), R) IN
                    \A i, j \in DOMAIN R : RLe(RAbs(RSub(P[i][j], A[i][j])), RMul(RPow10(0-9), MaxAbs(A))))
TView == l
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
