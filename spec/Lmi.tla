-------------------------------- MODULE Lmi --------------------------------
(***************************************************************************)
(* Matrix inequality oracles.  A problem is a matrix that depends on a     *)
(* point x (and, in the quadratic form, on a level t):                     *)
(*    "minus"   F0 - sum x_k F_k                                           *)
(*    "plus"    sum x_k F_k                                                *)
(*    "quad"    t I - R'R   where R = F0 - sum x_k F_k                     *)
(* A query factors the matrix there (module Ldlt); if that fails, the      *)
(* witness gives a cut g, f: every acceptable y has g.(y - x) + f <= 0.    *)
(***************************************************************************)
EXTENDS Ldlt

VARIABLES
    prob,    \* [form, F, F0]
    pt, lev  \* the point and the level asked about

ovars == <<fvars, prob, pt, lev>>

Dot1(x, F, i, j) == RSumSeq([k \in DOMAIN x |-> RMul(F[k][i][j], x[k])])
Lin(p, x) == [i \in DOMAIN p.F[1] |-> [j \in DOMAIN p.F[1][i] |->
                IF p.form = "plus" THEN Dot1(x, p.F, i, j) ELSE RSub(p.F0[i][j], Dot1(x, p.F, i, j))]]
At(p, x, t) ==
    IF p.form # "quad" THEN Lin(p, x)
    ELSE LET R == Lin(p, x) G == MMul(MTrans(R), R)
         IN  [i \in DOMAIN G |-> [j \in DOMAIN G |-> IF i = j THEN RSub(t, G[i][j]) ELSE RNeg(G[i][j])]]

Acceptable(p, x, t) == Positive(At(p, x, t))

OInit == FInit /\ prob = [form |-> "none", F |-> <<>>, F0 |-> <<>>] /\ pt = <<>> /\ lev = 0
OBegin(p) == prob' = p /\ UNCHANGED <<fvars, pt, lev>>
\* a query: whatever an earlier one left behind is dropped
OAsk(x, t) ==
    /\ fpc # "rows"
    /\ FBegin(At(prob, x, t), FALSE)
    /\ pt' = x /\ lev' = t /\ UNCHANGED prob
ORow == FRow /\ UNCHANGED <<prob, pt, lev>>

\* the first so many columns of m, times v
Cols(m, v) == [i \in DOMAIN m |-> VDot([k \in DOMAIN v |-> m[i][k]], v)]
CutOf ==
    LET v == Witness
    IN  [f |-> RNeg(D[row]),
         g |-> [k \in DOMAIN pt |->
                 IF prob.form = "quad" THEN RMul(0-2, VDot(Cols(prob.F[k], v), Cols(Lin(prob, pt), v)))
                 ELSE LET q == MQuad(Block(prob.F[k], 0, row), v) IN IF prob.form = "plus" THEN RNeg(q) ELSE q]]
CutValue(c, x, y) == RAdd(c.f, VDot(c.g, [k \in DOMAIN x |-> RSub(y[k], x[k])]))
-----------------------------------------------------------------------------
CONSTANT Grid        \* points on which the design runs try a cut
AcceptsAcceptable == fpc = "accepted" => Acceptable(prob, pt, lev)
RefusesOthers == fpc = "rejected" => ~Acceptable(prob, pt, lev)
CutIsViolated == fpc = "rejected" => RLe(0, CutOf.f)
CutExcludesNoAcceptable == fpc = "rejected" =>
    LET c == CutOf IN \A y \in Grid : Acceptable(prob, y, lev) => RLt(CutValue(c, pt, y), 0)
=============================================================================
