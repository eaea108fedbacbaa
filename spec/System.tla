------------------------------- MODULE System -------------------------------
(***************************************************************************)
(* A complete solve: a driver, an oracle and a search space together, over *)
(* a problem known in full.  What each of them promises is in their own    *)
(* modules; here it is put together.  The candidates are the points that   *)
(* might be solutions.  The search space is the set of candidates that are *)
(* still inside.  The property is Complete: a candidate that is feasible   *)
(* and better than the best so far is inside, whatever the space chose to  *)
(* keep besides.                                                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Cands, Values
VARIABLES
    feas,     \* the candidates that satisfy all constraints
    f,        \* candidate -> value
    inside,   \* those still in the space
    best,     \* the best value so far
    how,      \* "feas" | "dc" | "q"
    pc,       \* "ask" | "cut" | "done"
    keep,     \* what the pending cut lets through
    end       \* how the solve ended: "", "found", "nosoln", "small", "noeffect"

svars == <<feas, f, inside, best, how, pc, keep, end>>
Better(b) == {c \in feas : how = "feas" \/ f[c] < b}

SInit ==
    /\ feas \in SUBSET Cands /\ f \in [Cands -> Values]
    /\ how \in {"feas", "dc", "q"}
    /\ inside = Cands /\ pc = "ask" /\ keep = Cands /\ end = ""
    /\ best \in {v + 1 : v \in Values}

\* a valid cut never excludes what is feasible and better
Valid(k, b) == Better(b) \subseteq k

\* the oracle looks at a point: it may find it feasible (and end a search for
\* feasibility, or lower the best value), and gives a valid cut otherwise
Ask == /\ pc = "ask"
       /\ \/ /\ how = "feas" /\ feas # {} /\ pc' = "done" /\ end' = "found"
             /\ UNCHANGED <<feas, f, inside, best, how, keep>>
          \/ \E k \in SUBSET Cands, b \in {best} \cup (IF how = "feas" THEN {} ELSE {f[c] : c \in Better(best)}) :
               /\ Valid(k, b) /\ keep' = k /\ best' = b /\ pc' = "cut"
               /\ UNCHANGED <<feas, f, inside, how, end>>

\* the space takes the cut: it keeps all that was inside and is let through
Cut == /\ pc = "cut"
       /\ \/ \E s \in SUBSET Cands :
               /\ inside \cap keep \subseteq s /\ inside' = s
               /\ \E small \in BOOLEAN :
                    /\ pc' = (IF small THEN "done" ELSE "ask")
                    /\ end' = (IF small THEN "small" ELSE "")
          \/ /\ inside \cap keep = {} /\ pc' = "done" /\ end' = "nosoln" /\ UNCHANGED inside
          \/ /\ pc' = (IF how = "q" THEN "ask" ELSE "done") /\ end' = (IF how = "q" THEN "" ELSE "noeffect")
             /\ UNCHANGED inside
       /\ UNCHANGED <<feas, f, best, how, keep>>
SNext == Ask \/ Cut

Complete == Better(best) \subseteq inside
NoSolutionIsTrue == end = "nosoln" => Better(best) = {}
BestIsReached == how # "feas" /\ best \in Values => best \in {f[c] : c \in feas} \cup {v + 1 : v \in Values}
FoundIsTrue == end = "found" => feas # {}
=============================================================================
