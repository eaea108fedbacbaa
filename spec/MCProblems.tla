------------------------------ MODULE MCProblems ------------------------------
(* All problems of a small family in the plane, over the half-integer points    *)
(* of a disc: each is emitted to be solved for real.  The specification solves  *)
(* it by looking at every point; two certificates are checked on the way.       *)
EXTENDS Problem, Json, FiniteSets, TLC

CONSTANTS Radius, MaxCons, Some
VARIABLES cons, obj, n

L(a, hi) == [t |-> "lin", a |-> a, lo |-> 0, hi |-> hi]
S(a, lo, hi) == [t |-> "slab", a |-> a, lo |-> lo, hi |-> hi]
B(a, hi) == [t |-> "ball", a |-> a, lo |-> 0, hi |-> hi]
Family == << L(<<1, 0>>, 1), L(<<1, 0>>, 0 - 2), L(<<0, 0 - 1>>, 0 - 1), L(<<1, 1>>, 0), L(<<0 - 1, 2>>, 1), L(<<0 - 3, 0 - 1>>, 0 - 5),
             S(<<1, 1>>, 1, 2), S(<<2, 0 - 1>>, 0 - 3, 0 - 2), S(<<0, 2>>, 1, 2), S(<<1, 0 - 1>>, 4, 6),
             B(<<1, 0>>, 1), B(<<0 - 2, 1>>, 2), B(<<0, 0>>, 4), B(<<3, 3>>, 1) >>
Objs == << [c |-> <<1, 0>>, q |-> 0, p |-> <<0, 0>>], [c |-> <<0 - 1, 0 - 2>>, q |-> 0, p |-> <<0, 0>>],
           [c |-> <<0, 0>>, q |-> 1, p |-> <<1, 2>>], [c |-> <<1, 0 - 1>>, q |-> 2, p |-> <<0 - 1, 0>>] >>

Grid == {<<x, y>> : x \in (0 - 2 * Radius)..(2 * Radius), y \in (0 - 2 * Radius)..(2 * Radius)}
Half(p) == <<RDiv(p[1], 2), RDiv(p[2], 2)>>
Disc == {p \in Grid : p[1] * p[1] + p[2] * p[2] <= 4 * Radius * Radius}

PInit == \E k \in 0..MaxCons : \E c \in [1..k -> DOMAIN Family], o \in DOMAIN Objs :
            /\ \A i, j \in 1..k : i < j => c[i] < c[j]
            /\ cons = [i \in 1..k |-> c[i]] /\ obj = o /\ n = 0
            /\ Some = 1 \/ (LET T[i \in 0..k] == IF i = 0 THEN 0 ELSE 5 * T[i - 1] + c[i] IN T[k] + o) % Some = 0
PSpec == PInit /\ [][FALSE]_<<cons, obj, n>>

Cons == [i \in DOMAIN cons |-> Family[cons[i]]]
Sols == {p \in Disc : Feasible(Cons, Half(p))}
Opt == IF Sols = {} THEN <<>>
       ELSE <<Objective(Objs[obj], Half(CHOOSE p \in Sols : \A r \in Sols : RLe(Objective(Objs[obj], Half(p)), Objective(Objs[obj], Half(r)))))>>
\* the objective and the feasible set are convex on the grid
Convex == LET sols == Sols IN \A p \in sols, r \in sols :
    (p[1] + r[1]) % 2 = 0 /\ (p[2] + r[2]) % 2 = 0 =>
    LET m == <<(p[1] + r[1]) \div 2, (p[2] + r[2]) \div 2>> IN
    /\ m \in sols
    /\ RLe(RMul(2, Objective(Objs[obj], Half(m))), RAdd(Objective(Objs[obj], Half(p)), Objective(Objs[obj], Half(r))))
ConOf(c) == <<c.t, c.a, c.lo, c.hi>>
Emit == PrintT("@@" \o ToJson(<<Radius, [i \in DOMAIN Cons |-> ConOf(Cons[i])], <<Objs[obj].c, Objs[obj].q, Objs[obj].p>>, [i \in DOMAIN Opt |-> RShow(Opt[i])]>>))
=============================================================================
