------------------------------ MODULE CsdTrace ------------------------------
(* Recorded conversions to signed digits and back. *)
EXTENDS Csd, TraceBase

ASSUME SelfTest

TInit == Start(0, "places", 0) /\ l = 1
Judged(x, f, k) == /\ num' = x /\ form' = f /\ limit' = k /\ s' = ev.s
                   /\ UNCHANGED <<w, rem, used>>
TNext ==
    \/ Is("Begin") /\ UNCHANGED vars
    \/ /\ Is("Csd") /\ Act("convert", Judged(ev.num, "places", ev.places))
       /\ Chk("only-digits-and-one-point", WellFormed(ev.s))
       /\ Chk("no-adjacent-nonzeros", NonAdjacent(ev.s))
       /\ Chk("no-more-places-than-asked", Behind(ev.s) <= ev.places)
       /\ Chk("within-two-thirds-of-the-last-place", RLe(RMul(3, RAbs(RSub(ev.num, Value(ev.s)))), RPow2(1 - ev.places)))
       /\ Chk("exact-when-the-places-suffice", GoodPlaces(ev.num, ev.places, ev.s))
       /\ Chk("converts-back", REq(ev.back, Value(ev.s)))
    \/ /\ Is("Fixed") /\ Act("convert", Judged(ev.num, "fixed", ev.nnz))
       /\ Chk("only-digits-and-one-point", WellFormed(ev.s))
       /\ Chk("no-adjacent-nonzeros", NonAdjacent(ev.s))
       /\ Chk("no-more-nonzeros-than-allowed", NonZeros(ev.s) <= ev.nnz)
       /\ Chk("canonical-up-to-the-last-one", GoodFixed(ev.num, ev.nnz, ev.s))
       /\ Chk("converts-back", REq(ev.back, Value(ev.s)))
    \/ /\ Is("Back") /\ UNCHANGED vars       \* any string: other characters do not count
       /\ Chk("reads-the-digits", RRel(ev.value, Value(ev.s), RPow2(0 - 48)))
TView == l
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
