------------------------------ MODULE Lowpass ------------------------------
(***************************************************************************)
(* The filter oracle.  A coefficient vector x is tested against            *)
(*    x_1 >= 0,                                                            *)
(*    L <= a.x <= U      for the rows a of the passband,                   *)
(*    0 <= a.x <= best   for the rows of the stopband,                     *)
(*    0 <= a.x           for the other rows.                               *)
(* If one is violated, it is the cut; if none is, x is the best so far and *)
(* its largest stopband response the new best value.  Each band is         *)
(* searched starting where the last search of it ended.                    *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

VARIABLES
    spec,    \* [Ap, As, Anr: rows, L, U]
    best,    \* best value so far
    x,       \* the point asked about
    ptr,     \* where the searches start: <<passband, stopband, others>>
    said     \* [kind, g, f, two]: "none", "cut" or "improved"; f = <<near>> or <<near, far>>

lvars == <<spec, best, x, ptr, said>>

\* a constraint: lo <= row.x <= hi, one of them possibly absent ("none")
Con(row, lo, hi) == [row |-> row, lo |-> lo, hi |-> hi]
Con0(n) == Con(VUnit(n, 1), 0, "none")
Pass(s) == [k \in DOMAIN s.Ap |-> Con(s.Ap[k], s.L, s.U)]
Stop(s, b) == [k \in DOMAIN s.As |-> Con(s.As[k], 0, b)]
Rest(s) == [k \in DOMAIN s.Anr |-> Con(s.Anr[k], 0, "none")]
AllCons(s, n, b) == <<Con0(n)>> \o Pass(s) \o Stop(s, b) \o Rest(s)

Resp(row, y) == VDot(row, y)
TooHigh(c, y) == RIsNum(c.hi) /\ RLt(c.hi, Resp(c.row, y))
TooLow(c, y) == RLt(Resp(c.row, y), c.lo)
Meets(c, y) == ~TooHigh(c, y) /\ ~TooLow(c, y)
Value(s, y) == RMaxSeq([k \in DOMAIN s.As |-> Resp(s.As[k], y)])

\* the constraint as a cut at y: g.(z - y) + near <= 0 (<= g.(z - y) + far)
CutHigh(c, y) == [g |-> c.row, f |-> <<RSub(Resp(c.row, y), c.hi), RSub(Resp(c.row, y), c.lo)>>]
CutLow(c, y) == [g |-> [i \in DOMAIN c.row |-> RNeg(c.row[i])],
                 f |-> IF ~RIsNum(c.hi) THEN <<RSub(c.lo, Resp(c.row, y))>>
                       ELSE <<RSub(c.lo, Resp(c.row, y)), RSub(c.hi, Resp(c.row, y))>>]
CutFor(c, y) == IF TooHigh(c, y) THEN CutHigh(c, y) ELSE CutLow(c, y)
Admits(c, y, z) ==
    LET d == VDot(c.g, [i \in DOMAIN y |-> RSub(z[i], y[i])])
    IN  RLe(RAdd(d, c.f[1]), 0) /\ (Len(c.f) = 2 => RLe(0, RAdd(d, c.f[2])))

\* first violated one in a band, searched from p on (0: none)
Order(n, p) == [i \in 1..n |-> ((p + i - 1) % n) + 1]
FirstIn(band, p, y) ==
    LET o == Order(Len(band), p)
        bad == {i \in DOMAIN o : ~Meets(band[o[i]], y)}
    IN  IF bad = {} THEN 0 ELSE o[CHOOSE i \in bad : \A j \in bad : i <= j]

LInit == spec = [Ap |-> <<>>, As |-> <<>>, Anr |-> <<>>, L |-> 0, U |-> 0] /\ best = 0 /\ x = <<>> /\ ptr = <<0, 0, 0>>
         /\ said = [kind |-> "none", g |-> <<>>, f |-> <<>>, two |-> FALSE]
LBegin(s, b) == spec' = s /\ best' = b /\ x' = <<>> /\ ptr' = <<0, 0, 0>> /\ said' = [kind |-> "none", g |-> <<>>, f |-> <<>>, two |-> FALSE]

SayCut(c, two) == said' = [kind |-> "cut", g |-> c.g, f |-> c.f, two |-> two] /\ UNCHANGED best
LAsk(y) ==
    LET p == FirstIn(Pass(spec), ptr[1], y)
        s == FirstIn(Stop(spec, best), ptr[2], y)
        r == FirstIn(Rest(spec), ptr[3], y)
        v == Value(spec, y)
        top == {k \in DOMAIN spec.As : REq(Resp(spec.As[k], y), v)}
    IN  /\ x' = y /\ UNCHANGED spec
        /\ IF ~Meets(Con0(Len(y)), y) THEN SayCut(CutFor(Con0(Len(y)), y), FALSE) /\ UNCHANGED ptr
           ELSE IF p # 0 THEN SayCut(CutFor(Pass(spec)[p], y), TRUE) /\ ptr' = [ptr EXCEPT ![1] = p % Len(spec.Ap)]
           ELSE IF s # 0 THEN SayCut(CutFor(Stop(spec, best)[s], y), TRUE) /\ ptr' = [ptr EXCEPT ![2] = s % Len(spec.As)]
           ELSE IF r # 0 THEN SayCut(CutFor(Rest(spec)[r], y), FALSE) /\ ptr' = [ptr EXCEPT ![3] = r % Len(spec.Anr)]
           ELSE /\ best' = v /\ UNCHANGED ptr
                /\ \E k \in top : said' = [kind |-> "improved", g |-> spec.As[k], f |-> <<0, v>>, two |-> TRUE]
-----------------------------------------------------------------------------
CONSTANT Grid
Design(s, b, y) == \A k \in DOMAIN AllCons(s, Len(y), b) : Meets(AllCons(s, Len(y), b)[k], y)
\* improves only at a design that meets everything, and the value is its own
ImprovesAtDesigns == said.kind = "improved" => Design(spec, best, x) /\ REq(best, Value(spec, x))
\* whatever meets everything with a value no worse than the best is kept
CutsKeepDesigns == said.kind # "none" => \A z \in Grid : Design(spec, best, z) => Admits(said, x, z)
CutIsViolatedHere == said.kind = "cut" => RLt(0, said.f[1])
FarSideWhenTwoSided == said.kind = "cut" => (Len(said.f) = 2) = said.two
=============================================================================
