------------------------------- MODULE MCPosy -------------------------------
(* All short histories of operations on the registers, two variables.  An   *)
(* operation means the same operation on the functions, at every point.     *)
EXTENDS Posy, FiniteSets, TLC, Json

CONSTANTS Depth, Kind, Sparse     \* Kind: "mono" or "posy"
VARIABLE script
Xs == << <<1, 1>>, <<2, 1>>, <<"1/2", 3>>, <<3, "2/3">> >>
Exps == << <<1, 0>>, <<(0-1), 2>>, <<2, 2>> >>
K == <<2, "1/4">>
mv == [r \in 1..2 |-> [i \in DOMAIN Xs |-> At(mono[r], Xs[i])]]
pv == [r \in 1..2 |-> [i \in DOMAIN Xs |-> ValueAt(posy[r], Xs[i])]]
\* the monomials start out different, and so do the posynomials
MInit == /\ n = 2 /\ script = <<>>
         /\ mono = << Term(2, <<1, (0-1)>>), Term("1/4", <<0, 2>>) >>
         /\ posy = << <<Term(2, <<1, (0-1)>>)>>, <<Term("1/4", <<0, 2>>), Term(3, <<(0-2), 1>>)>> >>
TakesK(op) == op \in {"make", "constant", "scale", "shrink", "invert", "coeff"}
TakesQ(op) == op \in {"times", "over", "copy", "from", "addm", "sum", "addp", "timesm", "overm", "product"}
Mono(op, r, q, k, a) == MonoOp(op, r, q, K[k], Exps[a]) /\ script' = Append(script, <<"mono", op, r, q, RShow(K[k]), Exps[a], 0>>)
Posy_(op, r, q, k, i) == PosyOp(op, r, q, K[k], i) /\ script' = Append(script, <<"posy", op, r, q, RShow(K[k]), Exps[1], i>>)
MNext ==
    /\ Len(script) < Depth
    /\ \E r \in 1..2, q \in 1..2, k \in DOMAIN K :
         \/ Kind = "mono" /\ \E op \in MonoOps, a \in DOMAIN Exps :
              /\ (TakesQ(op) \/ q = 1) /\ (TakesK(op) \/ k = 1) /\ (op = "make" \/ a = 1)
              /\ op = "root" => \A j \in 1..2 : RIsNum(mono[r].a[j]) /\ REq(RMul(2, RFloor(RDiv(mono[r].a[j], 2))), mono[r].a[j])
              /\ Mono(op, r, q, k, a)
         \/ Kind = "posy" /\ \E op \in PosyOps, i \in 1..3 :
              /\ (TakesQ(op) \/ q = 1) /\ (TakesK(op) \/ k = 1)
              /\ (op \in {"timesown", "overown"} => i \in DOMAIN posy[r]) /\ (op \in {"ones", "timesown", "overown"} \/ i = 1)
              /\ op \in {"product", "addp"} => Len(posy[r]) * Len(posy[q]) <= 12
              /\ Posy_(op, r, q, k, i)
MSpec == MInit /\ [][MNext]_<<n, mono, posy, script>>

Near(u, v) == RRel(u, v, RPow2(0 - 150))
Same(f, g) == \A i \in DOMAIN Xs : Near(f[i], g[i])
\* what an operation did to the function of its register, and to no other
Meaning == [][LET o == script'[Len(script')] op == o[2] r == o[3] q == o[4] k == o[5] i == o[7]
                  Pt(F(_)) == [x \in DOMAIN Xs |-> F(x)]
              IN  /\ o[1] = "mono" => /\ pv' = pv /\ mv'[3 - r] = mv[3 - r]
                      /\ LET G(x) == CASE op = "make" -> RMul(k, PowProd(Xs[x], o[6], 2))
                                       [] op = "constant" -> k
                                       [] op = "one" -> 1
                                       [] op = "times" -> RMul(mv[r][x], mv[q][x])
                                       [] op = "over" -> RDiv(mv[r][x], mv[q][x])
                                       [] op = "scale" -> RMul(k, mv[r][x])
                                       [] op = "shrink" -> RDiv(mv[r][x], k)
                                       [] op = "invert" -> RDiv(k, mv[r][x])
                                       [] op = "root" -> RSqrt(mv[r][x])
                                       [] op = "coeff" -> RDiv(RMul(k, mv[r][x]), mono[r].c)
                                       [] op = "copy" -> mv[q][x]
                         IN  Same(mv'[r], Pt(G))
                  /\ o[1] = "posy" => /\ mv' = mv /\ pv'[3 - r] = pv[3 - r]
                      /\ LET Own(x) == At(posy[r][i], Xs[x])
                             G(x) == CASE op = "from" -> mv[q][x]
                                       [] op = "ones" -> i
                                       [] op = "addm" -> RAdd(pv[r][x], mv[q][x])
                                       [] op = "sum" -> RAdd(mv[1][x], mv[2][x])
                                       [] op = "addp" -> RAdd(pv[r][x], pv[q][x])
                                       [] op = "timesm" -> RMul(pv[r][x], mv[q][x])
                                       [] op = "overm" -> RDiv(pv[r][x], mv[q][x])
                                       [] op = "timesown" -> RMul(pv[r][x], Own(x))
                                       [] op = "overown" -> RDiv(pv[r][x], Own(x))
                                       [] op = "scale" -> RMul(k, pv[r][x])
                                       [] op = "shrink" -> RDiv(pv[r][x], k)
                                       [] op = "product" -> RMul(pv[r][x], pv[q][x])
                                       [] op = "copy" -> pv[q][x]
                         IN  Same(pv'[r], Pt(G))]_<<n, mono, posy, script>>
\* the log scale says the same, and is convex: the tangent at one point is below at the others
Ys == [i \in DOMAIN Xs |-> [j \in 1..2 |-> RLog(Xs[i][j])]]
LogScale == \A r \in 1..2 :
    LET s == IF Kind = "mono" THEN <<mono[r]>> ELSE posy[r]
        F == IF Kind = "mono" THEN mv ELSE pv
        L == [i \in DOMAIN Xs |-> LogTerms(s, Ys[i])] E == [i \in DOMAIN Xs |-> Scaled(L[i])] V == [i \in DOMAIN Xs |-> ValueOf(L[i], E[i])]
    IN  /\ \A i \in DOMAIN Xs : RWithin(V[i], RLog(F[r][i]), RPow10(0-40), 1)
        /\ \A i \in DOMAIN Xs : LET g == GradientOf(s, E[i], 2)
              IN  \A j \in DOMAIN Xs : RLe(RAdd(V[i], VDot(g, VSub(Ys[j], Ys[i]))), RAdd(V[j], RPow10(0-40)))
\* a sample of the histories is replayed on the code
Code(o) == Len(o[2]) + 3 * o[3] + 5 * o[4] + 7 * o[7]
RECURSIVE Sum(_, _)
Sum(s, m) == IF m > Len(s) THEN 0 ELSE (m * Code(s[m])) + Sum(s, m + 1)
Emit == Len(script) = Depth /\ (Sum(script, 1) % Sparse) = 0 => PrintT("@@" \o ToJson(<<Kind, script>>))
ASSUME SelfTest
=============================================================================
