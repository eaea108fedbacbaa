--------------------------- MODULE NegCycleTrace ---------------------------
(* Recorded negative-cycle searches, several by one finder on one graph. *)
EXTENDS NegCycle, TraceBase

ASSUME SelfTest

Grown(e) == [i \in DOMAIN e |-> [u |-> e[i][1], v |-> e[i][2]]]
Fits(nn, ee, f) == Len(f) = nn
TInit == NInit /\ l = 1
\* a search as one step: from potentials d0 under weights w to an answer
TNext ==
    \/ /\ Is("Begin")
       /\ n' = ev.n /\ edges' = Grown(ev.edges) /\ w' = <<>> /\ dist' = VZero(ev.n)
       /\ policy' = [i \in 1..ev.n |-> 0] /\ searching' = FALSE
    \/ /\ Is("Add") /\ edges' = Append(edges, [u |-> ev.u, v |-> ev.v]) /\ UNCHANGED <<n, w, dist, policy, searching>>
    \/ /\ Is("Find")
       /\ LET ee == edges
              some == ~NoNegativeCycle(n, ee, ev.w)
          IN  /\ Chk("finds-a-cycle-exactly-when-there-is-a-negative-one", some <=> ev.cycle # <<>>)
              /\ Chk("answer-is-a-simple-closed-walk", ev.cycle # <<>> => SimpleCycle(ee, ev.cycle))
              /\ Chk("answer-is-negative", ev.cycle # <<>> => RLt(Total(ev.w, ev.cycle), 0))
              /\ Chk("potentials-satisfy-every-edge", ev.cycle = <<>> => VIsNum(ev.d) /\ Satisfied(ee, ev.w, ev.d))
       /\ w' = ev.w /\ dist' = ev.d /\ UNCHANGED <<n, edges, policy, searching>>
TView == l
TSpec == TInit /\ [][TNext]_<<nvars, l>>
=============================================================================
