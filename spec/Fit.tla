-------------------------------- MODULE Fit --------------------------------
(***************************************************************************)
(* Fitting a correlation polynomial.  Over sites s the covariance          *)
(*     Sigma(x) = x_1 F_1 + ... + x_m F_m,   (F_k)ij = |s_i - s_j|^(k-1)   *)
(* is held against data Y:                                                 *)
(*    "least"   least (spectral norm of Y - Sigma)^2, Sigma positive       *)
(*    "free"    the same for any Sigma                                     *)
(*    "likely"  least log det Sigma + tr(Sigma^-1 Y), Sigma positive and   *)
(*              at most 2 Y, where that is convex                          *)
(* "least" is solved over (x, t), t a bound on the squared error.  The     *)
(* oracle says what a point breaks, or how a better point must lie, by a   *)
(* cut g, f: every acceptable better z has g.(z - point) + f <= 0.         *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

VARIABLES
    job,     \* [form, s, Y, F]
    best,    \* best value so far
    at,      \* the point asked about
    said     \* [kind, g, f]: "none", "positive", "below", "error", "worse", "better"
fvars == <<job, best, at, said>>

Dist(s, i, j) == LET d == VSub(s[i], s[j]) IN RSqrt(VDot(d, d))
Powers(s, m) == [k \in 1..m |-> [i \in DOMAIN s |-> [j \in DOMAIN s |-> RPow(Dist(s, i, j), k - 1)]]]
\* rounded far below any accuracy asked for
RECURSIVE SigmaTo(_, _, _)
SigmaTo(F, x, k) == IF k = 1 THEN MScale(x[1], F[1]) ELSE MAdd(SigmaTo(F, x, k - 1), MScale(x[k], F[k]))
Sigma(F, x) == MRound(SigmaTo(F, x, Len(x)), 200)
Shift(m, r) == [i \in DOMAIN m |-> [j \in DOMAIN m |-> IF i = j THEN RAdd(m[i][j], r) ELSE m[i][j]]]
Minus(a, b) == MAdd(a, MScale(0-1, b))
\* positive definite with some room
Pos(m, room) == MPosDef(Shift(m, RNeg(room)))

Misfit(j, x) == Minus(j.Y, Sigma(j.F, x))
\* is the squared error at x less than a?
NegSquare(m) == MRound(MScale(0-1, MMul(MTrans(m), m)), 200)
ErrBelow(j, x, a) == MPosDef(Shift(NegSquare(Misfit(j, x)), a))
InvTimes(S, b) == MMul(MRound(MInv(S), 200), b)
Trace_(m) == RSumSeq([i \in DOMAIN m |-> m[i][i]])
Likely(j, x) == LET S == Sigma(j.F, x) IN RAdd(RLog(MDet(S)), Trace_(InvTimes(S, j.Y)))
Twice(j, x) == Minus(MScale(2, j.Y), Sigma(j.F, x))
\* what the form asks of the coefficients, with room to spare
Admissible(j, x, room) ==
    CASE j.form = "free" -> TRUE
      [] j.form = "least" -> Pos(Sigma(j.F, x), room)
      [] j.form = "likely" -> Pos(Sigma(j.F, x), room) /\ Pos(Twice(j, x), room)

\* a vector w with w'mw <= 0, for a matrix that is not positive definite
Lead(m, k) == [i \in 1..k |-> [j \in 1..k |-> m[i][j]]]
Witness(m) ==
    LET k == CHOOSE q \in DOMAIN m : ~MPosDef(Lead(m, q)) /\ \A p \in 1..(q - 1) : MPosDef(Lead(m, p))
        w == IF k = 1 THEN <<>> ELSE MSolve(Lead(m, k - 1), [i \in 1..(k - 1) |-> RNeg(m[i][k])])
    IN  [i \in DOMAIN m |-> IF i < k THEN w[i] ELSE IF i = k THEN 1 ELSE 0]

FInit == job = [form |-> "none"] /\ best = 0 /\ at = <<>> /\ said = [kind |-> "none", g |-> <<>>, f |-> 0]
FBegin(form, s, Y, m, b) ==
    /\ job' = [form |-> form, s |-> s, Y |-> Y, F |-> Powers(s, m)]
    /\ best' = b /\ at' = <<>> /\ said' = [kind |-> "none", g |-> <<>>, f |-> 0]

Say(k, g, f) == said' = [kind |-> k, g |-> g, f |-> f]
Head_(p) == [k \in 1..(Len(p) - 1) |-> p[k]]
Positive(x, pad) == LET w == Witness(Sigma(job.F, x)) IN
    Say("positive", [k \in DOMAIN x |-> RNeg(MQuad(job.F[k], w))] \o pad, RNeg(MQuad(Sigma(job.F, x), w)))
\* the coefficients and the bound
AskLeast(p) ==
    LET x == Head_(p) t == p[Len(p)] e == Misfit(job, x)
        q == Shift(MScale(0-1, MMul(MTrans(e), e)), t)
    IN  /\ job.form = "least" /\ at' = p /\ UNCHANGED job
        /\ IF ~MPosDef(Sigma(job.F, x)) THEN Positive(x, <<0>>) /\ UNCHANGED best
           ELSE IF ~MPosDef(q)
           THEN LET w == Witness(q) ew == MVec(e, w)
                IN  Say("error", [k \in DOMAIN x |-> RMul(0-2, VDot(ew, MVec(job.F[k], w)))] \o <<RNeg(VDot(w, w))>>, RNeg(MQuad(q, w)))
                    /\ UNCHANGED best
           ELSE IF RLt(best, t) THEN Say("worse", [k \in DOMAIN p |-> IF k = Len(p) THEN 1 ELSE 0], RSub(t, best)) /\ UNCHANGED best
           ELSE Say("better", [k \in DOMAIN p |-> IF k = Len(p) THEN 1 ELSE 0], 0) /\ best' = t
AskLikely(x) ==
    LET S == Sigma(job.F, x)
    IN  /\ job.form = "likely" /\ at' = x /\ UNCHANGED job
        /\ IF ~MPosDef(Twice(job, x))
           THEN LET w == Witness(Twice(job, x)) IN
                Say("below", [k \in DOMAIN x |-> MQuad(job.F[k], w)], RNeg(MQuad(Twice(job, x), w))) /\ UNCHANGED best
           ELSE IF ~MPosDef(S) THEN Positive(x, <<>>) /\ UNCHANGED best
           ELSE LET v == Likely(job, x)
                    SY == InvTimes(S, job.Y)
                    g == [k \in DOMAIN x |-> LET SF == InvTimes(S, job.F[k]) IN RSub(Trace_(SF), Trace_(MMul(SF, SY)))]
                IN  IF RLt(v, best) THEN Say("better", g, 0) /\ best' = v
                    ELSE Say("worse", g, RSub(v, best)) /\ UNCHANGED best
-----------------------------------------------------------------------------
CONSTANT Grid(_)     \* points on which the design runs try the cuts, per form
Tiny == RPow10(0-25)
\* acceptable and better than the best
Better(z) ==
    CASE job.form = "least" -> LET x == Head_(z) IN Admissible(job, x, 0) /\ ErrBelow(job, x, z[Len(z)]) /\ RLt(z[Len(z)], best)
      [] job.form = "likely" -> Admissible(job, z, 0) /\ RLt(RAdd(Likely(job, z), Tiny), best)
CutsKeepBetter == said.kind # "none" =>
    \A z \in Grid(job.form) : Better(z) => RLe(RAdd(said.f, VDot(said.g, [k \in DOMAIN at |-> RSub(z[k], at[k])])), Tiny)
\* the best value is attained at an acceptable point
BestIsAttained == said.kind = "better" =>
    CASE job.form = "least" -> Admissible(job, Head_(at), 0) /\ ErrBelow(job, Head_(at), best)
      [] job.form = "likely" -> Admissible(job, at, 0) /\ REq(best, Likely(job, at))
RefusedIsNot == said.kind \in {"positive", "below"} => ~Admissible(job, IF job.form = "least" THEN Head_(at) ELSE at, 0)
CutIsViolated == said.kind # "none" => RLe(0, said.f)
=============================================================================
