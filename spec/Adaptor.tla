------------------------------ MODULE Adaptor ------------------------------
(***************************************************************************)
(* The adaptor that turns a feasibility search into the predicate of a     *)
(* binary search.  It owns nothing: an oracle that can be told a level and *)
(* a search space.  Each test tells the oracle the level and searches a    *)
(* copy of the space; that search is the driver CuttingPlane("feas").      *)
(* The oracle may be told other levels by others between the tests.        *)
(***************************************************************************)
EXTENDS CuttingPlane

VARIABLES
    outer,    \* the space itself, [x |-> centre, shape |-> its shape]
    testing,  \* a test is under way
    level,    \* the value being tested
    heard,    \* <<level>> that the oracle has been told last, <<>> before that
    opts,     \* [maxit, tol]
    start,    \* the space at the start of the test
    accepted  \* the points accepted so far, latest last (for the properties)

avars == <<vars, outer, testing, level, heard, opts, start, accepted>>

AInit ==
    /\ Init /\ outer = [x |-> 0, shape |-> 0] /\ testing = FALSE /\ level = 0 /\ heard = <<>>
    /\ opts = [maxit |-> 0, tol |-> 0] /\ start = outer /\ accepted = <<>>

ABegin(x, shape, m, e) ==
    /\ ~testing
    /\ outer' = [x |-> x, shape |-> shape] /\ opts' = [maxit |-> m, tol |-> e]
    /\ start' = [x |-> x, shape |-> shape] /\ accepted' = <<>> /\ testing' = FALSE /\ heard' = <<>>
    /\ pc' = "idle"
    /\ UNCHANGED <<mode, maxit, centre, value, value0, pending, alt, retry, best, found, status, calls, log, level>>

\* the adaptor is asked about t: an inner search starts at the outer centre
Test(t) ==
    /\ ~testing
    /\ testing' = TRUE /\ level' = t /\ start' = outer
    /\ Begin("feas", opts.maxit, outer.x, 0)
    /\ UNCHANGED <<outer, opts, accepted, heard>>

Tell(t) ==
    /\ testing /\ t = level /\ calls = 0
    /\ heard' = <<t>>
    /\ UNCHANGED <<vars, outer, testing, level, opts, start, accepted>>
\* somebody else uses the oracle
Elsewhere(t) ==
    /\ ~testing
    /\ heard' = <<t>>
    /\ UNCHANGED <<vars, outer, testing, level, opts, start, accepted>>
Told == heard = <<level>>

InnerAsk(x, accept, c) ==
    /\ testing /\ Told
    /\ Ask(x, 0, FALSE, [cut |-> IF accept THEN NoPoint ELSE c, v |-> 0, x0 |-> NoPoint, shrunk |-> FALSE, alt |-> FALSE])
    /\ UNCHANGED <<outer, testing, level, heard, opts, start, accepted>>

InnerApply(c, verdict, small, x) ==
    /\ testing
    /\ Apply(c, verdict, small, x)
    /\ UNCHANGED <<outer, testing, level, heard, opts, start, accepted>>

\* the answer, and the outer space as it can be observed afterwards
Answer(yes, x, shape, bestx) ==
    /\ testing
    /\ Told
    /\ pc = "ready" \/ LimitReached
    /\ yes = found
    /\ x = (IF yes THEN centre ELSE start.x)
    /\ shape = start.shape
    /\ bestx = x
    /\ outer' = [x |-> x, shape |-> shape]
    /\ accepted' = IF yes THEN Append(accepted, x) ELSE accepted
    /\ testing' = FALSE /\ pc' = "idle"
    /\ UNCHANGED <<mode, maxit, centre, value, value0, pending, alt, retry, best, found, status, calls, log, level, heard, opts, start>>

-----------------------------------------------------------------------------
\* the space stands at the latest accepted point, and its shape never changes
BestIsLatest(x0) == ~testing => outer.x = IF accepted = <<>> THEN x0 ELSE accepted[Len(accepted)]
ShapeKept(s0) == outer.shape = s0
\* the oracle is asked only at the level being tested
ToldFirst == testing /\ calls > 0 => Told
=============================================================================
