-------------------------------- MODULE Ldlt --------------------------------
(***************************************************************************)
(* Square-root-free factorization, row by row.  Row i eliminates against   *)
(* the rows start..i-1 and yields a pivot; a pivot that is not positive    *)
(* ends it (or, when semidefinite matrices are allowed and the pivot is    *)
(* zero, the factorization starts afresh below that row).                  *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

VARIABLES
    A,       \* the matrix
    semi,    \* are semidefinite matrices allowed?
    row,     \* rows done
    start,   \* rows before start + 1 are left out
    L, D,    \* unit lower factor, pivots, of the rows done
    fpc      \* "idle", "rows", "accepted", "rejected"

fvars == <<A, semi, row, start, L, D, fpc>>

FInit == A = <<>> /\ semi = FALSE /\ row = 0 /\ start = 0 /\ L = <<>> /\ D = <<>> /\ fpc = "idle"
FBegin(m, s) == A' = m /\ semi' = s /\ row' = 0 /\ start' = 0 /\ L' = <<>> /\ D' = <<>> /\ fpc' = "rows"

\* row i of the factor, entries start+1..i-1, and its pivot
RECURSIVE Entries(_, _, _)
Entries(i, j, got) ==      \* got: function start+1..j-1 -> L(i, .)
    IF j = i THEN got
    ELSE LET sum == RSumSeq([k \in 1..(j - 1 - start) |-> RMul(RMul(got[start + k], L[j][start + k]), D[start + k])])
         IN  Entries(i, j + 1, [k \in (start + 1)..j |-> IF k = j THEN RDiv(RSub(A[i][j], sum), D[j]) ELSE got[k]])
FRow ==
    /\ fpc = "rows" /\ row < Len(A)
    /\ LET i == row + 1
           e == Entries(i, start + 1, [k \in {} |-> 0])
           d == RSub(A[i][i], RSumSeq([k \in 1..(i - 1 - start) |-> RMul(RSq(e[start + k]), D[start + k])]))
       IN  /\ row' = i
           /\ L' = Append(L, [k \in 1..i |-> IF k = i THEN 1 ELSE IF k > start THEN e[k] ELSE 0])
           /\ D' = Append(D, d)
           /\ start' = IF semi /\ REq(d, 0) THEN i ELSE start
           /\ fpc' = IF RLt(d, 0) \/ (REq(d, 0) /\ ~semi) THEN "rejected" ELSE IF i = Len(A) THEN "accepted" ELSE "rows"
    /\ UNCHANGED <<A, semi>>

Block(m, s, t) == [i \in 1..(t - s) |-> [j \in 1..(t - s) |-> m[s + i][s + j]]]

\* a vector that proves that the rows start+1..row are not positive definite
RECURSIVE WitnessFrom(_, _)
WitnessFrom(i, v) ==
    IF i = start THEN v
    ELSE WitnessFrom(i - 1, [v EXCEPT ![i - start] =
            RNeg(RSumSeq([k \in 1..(row - i) |-> RMul(L[i + k][i], v[i + k - start])]))])
Witness == WitnessFrom(row - 1, [k \in 1..(row - start) |-> IF k = row - start THEN 1 ELSE 0])

\* on their own: the pivots of a matrix as long as they are positive
Positive(m) == MPosDef(m)
RECURSIVE Minors(_, _)
Minors(m, k) == IF k = 0 THEN <<>> ELSE Append(Minors(m, k - 1), MDet(Block(m, 0, k)))
Pivots(m) == LET q == Minors(m, Len(m)) IN [k \in DOMAIN q |-> IF k = 1 THEN q[1] ELSE RDiv(q[k], q[k - 1])]
-----------------------------------------------------------------------------
AcceptsExactlyPositive == (fpc = "accepted" /\ ~semi) => Positive(A)
RejectsExactlyOthers == (fpc = "rejected" /\ ~semi) => ~Positive(Block(A, 0, row)) /\ (row > 1 => Positive(Block(A, 0, row - 1)))
WitnessProves == fpc = "rejected" =>
    LET b == Block(A, start, row) v == Witness
    IN  /\ REq(MQuad(b, v), D[row]) /\ RLe(D[row], 0) /\ (semi => RLt(D[row], 0))
        /\ \E k \in DOMAIN v : ~REq(v[k], 0)
FactorsGiveBack == (fpc = "accepted" /\ ~semi) =>
    \A i, j \in 1..Len(A) : j <= i => REq(A[i][j], RSumSeq([k \in 1..j |-> RMul(RMul(L[i][k], L[j][k]), D[k])]))
PivotsAreRatiosOfMinors == (fpc # "idle" /\ ~semi) => \A k \in 1..row : REq(D[k], Pivots(A)[k])
=============================================================================
