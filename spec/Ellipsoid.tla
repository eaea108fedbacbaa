----------------------------- MODULE Ellipsoid -----------------------------
(***************************************************************************)
(* The ellipsoidal search spaces (ell, ell_stable), described by what they *)
(* are for: a space is the set {x : (x - xc)' inv(P) (x - xc) <= 1}, and a *)
(* cut replaces it by the smallest ellipsoid around the part that is kept. *)
(*                                                                         *)
(* A cut is a direction g with a near side  g'(x - xc) + b0 <= 0  and      *)
(* possibly a far side  g'(x - xc) + b1 >= 0.  With tau = sqrt(g'Pg) and   *)
(* u = g'(x - xc)/tau the space is a unit ball and the kept part is the    *)
(* slab  -b1/tau <= u <= -b0/tau.  All cuts, single or parallel, central,  *)
(* deep or shallow, are this one slab; nothing here follows the case       *)
(* distinctions of the code.                                               *)
(***************************************************************************)
EXTENDS Rat

None == "none"
HasFar(b1) == RIsNum(b1)

\* the slab within the unit ball
Low(tau, b1) == IF ~HasFar(b1) THEN -1 ELSE RMax(-1, RNeg(RDiv(b1, tau)))
High(tau, b0) == RMin(1, RNeg(RDiv(b0, tau)))

Empty(lo, hi, e) == RLt(hi, RAdd(lo, e))
\* no smaller ellipsoid contains the slab exactly when 1 + n lo hi <= 0
Margin(n, lo, hi) == RAdd(1, RMul(n, RMul(lo, hi)))

\* the verdicts allowed when thresholds are known to within e
Verdict(n, lo, hi, e) ==
       (IF Empty(lo, hi, e) THEN {"nosoln"} ELSE {})
  \cup (IF ~Empty(lo, hi, RNeg(e)) /\ RLe(Margin(n, lo, hi), e) THEN {"noeffect"} ELSE {})
  \cup (IF ~Empty(lo, hi, RNeg(e)) /\ RLt(RNeg(e), Margin(n, lo, hi)) THEN {"success"} ELSE {})

(* The smallest ellipsoid around the slab [lo, hi] of the unit ball touches
   it at both ends.  With m, d the middle and half width of the slab, s the
   ratio of the squared half axes along and across, this leaves
      centre  (1 - s) m,   across^2 = 1 - m^2 + m^2 s - d^2 + d^2/s
   and the volume is least where (n+1) m^2 s^2 + q s - (n-1) d^2 = 0,
   q = 1 - m^2 - d^2. *)
Smallest(n, lo, hi) ==
    LET m == RDiv(RAdd(lo, hi), 2)
        d == RDiv(RSub(hi, lo), 2)
        m2 == RSq(m)
        d2 == RSq(d)
        q == RSub(1, RAdd(m2, d2))
        r == RSqrt(RAdd(RSq(q), RMul(4 * (n*n - 1), RMul(m2, d2))))
        s == RDiv(RMul(2 * (n - 1), d2), RAdd(q, r))
    IN  IF RLe(d2, 0)             \* a slice: what the rest tends to for thin slabs
        THEN [centre |-> m, across |-> RDiv(RMul(n, q), n - 1), s |-> 0]
        ELSE [centre |-> RMul(RSub(1, s), m),
              across |-> RAdd(RAdd(q, RMul(m2, s)), RDiv(d2, s)),
              s |-> s]
\* the same to 200 bits, which keeps the numbers short over long histories
Short(k) == [centre |-> RRound(k.centre, 200), across |-> RRound(k.across, 200), s |-> RRound(k.s, 200)]

\* back in x space
After(x, P, g, tau, lo, hi) ==
    LET n == Len(x)
        k == Short(Smallest(n, lo, hi))
        Pg == MVec(P, g)
        shift == RRound(RDiv(k.centre, tau), 200)
        shrink == RRound(RDiv(RSub(1, k.s), RSq(tau)), 200)
    IN  [x |-> VAdd(x, VScale(shift, Pg)),
         P |-> MScale(k.across, MAdd(P, MScale(RNeg(shrink), MOuter(Pg, Pg))))]

(* ell_stable as it is written (a finding listed in known_findings.json as
   "ell-stable-factors"): started from a diagonal shape, the factor never gets
   an off-diagonal part, so the shape stays diagonal, and the back substitution
   takes the pivots for entries of the factor.  kappa is the scale it keeps
   apart from the pivots P[j][j]/kappa. *)
RECURSIVE BackSubst(_, _, _, _)
BackSubst(P, kappa, g, i) ==      \* the entries i..n of what it takes for Qg
    LET own == RRound(RMul(RDiv(P[i][i], kappa), g[i]), 200)
    IN  IF i = Len(g) THEN <<own>>
        ELSE LET rest == BackSubst(P, kappa, g, i + 1)
             IN  <<RSub(own, RRound(RMul(RDiv(P[i+1][i+1], kappa), rest[1]), 200))>> \o rest
AfterDiagonal(x, P, kappa, g, tau, lo, hi) ==
    LET n == Len(x)
        k == Short(Smallest(n, lo, hi))
        tsq == RSq(tau)
        start == RRound(RDiv(RMul(tsq, k.s), RSub(1, k.s)), 200)
        part(j) == RAdd(start, RSumSeq([i \in 1..j |-> RMul(P[i][i], RSq(g[i]))]))
    IN  [x |-> VAdd(x, VScale(RDiv(RMul(k.centre, RMul(tau, kappa)), tsq), BackSubst(P, kappa, g, 1))),
         P |-> [i \in 1..n |-> [j \in 1..n |->
                 IF i = j THEN RMul(RMul(k.across, P[j][j]), RDiv(part(j - 1), part(j))) ELSE 0]],
         kappa |-> RMul(kappa, k.across)]

Size(P, g) == MQuad(P, g)
Keeps(x, g, b0, b1, p) ==
    LET v == VDot(g, VSub(p, x))
    IN  RLe(RAdd(v, b0), 0) /\ (~HasFar(b1) \/ RLe(0, RAdd(v, b1)))
Inside(x, P, p, e) ==
    LET y == VSub(p, x) IN RLe(VDot(y, MSolve(P, y)), RAdd(1, e))

-----------------------------------------------------------------------------
(* The state machine: a family of spaces with value semantics. *)
VARIABLES
    spaces,   \* sequence of [x, P, par, last]; par: parallel cuts are used
    points    \* per space, a sequence of points of the initial ellipsoid that all accepted cuts keep

evars == <<spaces, points>>

FarOf(k, b1) == IF spaces[k].par THEN b1 ELSE None
LowOf(k, tau, b1) == Low(tau, FarOf(k, b1))

KeptPoints(k, g, b0, b1) == SelectSeq(points[k], LAMBDA p : Keeps(spaces[k].x, g, b0, FarOf(k, b1), p))

EInit == spaces = <<>> /\ points = <<>>

EBegin(objs, pts) ==
    /\ spaces' = objs
    /\ points' = [k \in DOMAIN objs |-> pts]

\* cut space k; tau is the root of Size(P, g)
Cut(k, g, b0, b1, tau, verdict) ==
    LET lo == LowOf(k, tau, b1)
        hi == High(tau, b0)
        n == Len(g)
        a == After(spaces[k].x, spaces[k].P, g, tau, lo, hi)
    IN  /\ verdict \in Verdict(n, lo, hi, 0)
        /\ IF verdict = "success"
           THEN /\ spaces' = [spaces EXCEPT ![k].x = [i \in 1..n |-> RRound(a.x[i], 260)], ![k].P = MRound(a.P, 260)]
                /\ points' = [points EXCEPT ![k] = KeptPoints(k, g, b0, b1)]
           ELSE UNCHANGED evars

Copy(k) == spaces' = Append(spaces, spaces[k]) /\ points' = Append(points, points[k])
Move(k, x) == spaces' = [spaces EXCEPT ![k].x = x] /\ points' = [points EXCEPT ![k] = <<>>]

-----------------------------------------------------------------------------
\* no point that satisfies all accepted cuts is ever lost
\* a cut that just touches the space leaves that one point
PointShape(P) == \A i \in DOMAIN P, j \in DOMAIN P : REq(P[i][j], 0)
Point(k) == PointShape(spaces[k].P)
NeverLost(e) == \A k \in DOMAIN spaces : \A i \in DOMAIN points[k] :
    IF Point(k) THEN (\A j \in DOMAIN spaces[k].x : RLe(RAbs(RSub(spaces[k].x[j], points[k][i][j])), e)) ELSE Inside(spaces[k].x, spaces[k].P, points[k][i], e)
PositiveDefinite == \A k \in DOMAIN spaces : Point(k) \/ MPosDef(spaces[k].P)
=============================================================================
