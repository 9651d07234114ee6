------------------------------- MODULE MCLoud --------------------------------
(* The meter of the model against the definition over the whole history since *)
(* the last reset (h: weighted energy and whether the meter was running).     *)
EXTENDS Loud, TLC
CONSTANTS MaxLen
VARIABLES h
vars == <<cf, win, ms, ss, run, pend, ml, sl, h>>
Conf == [sp |-> <<1, 5, 4>>, m |-> 2, s |-> 3, gate |-> 150, exact |-> TRUE]
Energies == { <<0, 0, 9>>, <<1, 0, 0>>, <<2, 1, 0>>, <<100, 0, 3>>, <<0, 20, 0>> }
Init == cf = Conf /\ win = <<>> /\ ms = 0 /\ ss = 0 /\ run = TRUE /\ pend = FALSE /\ ml = <<>> /\ sl = <<>> /\ h = <<>>
\* the windows and lists a packet is added to after a reset
Cleared(b) == [win |-> <<>>, ms |-> 0, ss |-> 0, ml |-> <<>>, sl |-> <<>>]
Play == /\ Len(h) < MaxLen \/ pend
        /\ \E e \in Energies : Packet(e) /\ h' = (IF pend THEN <<>> ELSE h) \o << [x |-> Weighted(cf.sp, e), r |-> run] >>
Next == Play \/ (Reset /\ UNCHANGED h) \/ (Start /\ UNCHANGED h) \/ (Stop /\ UNCHANGED h)
Spec == Init /\ [][Next]_vars
\* by definition
Sum(k, n) == Total([i \in 1..(IF k < n THEN k ELSE n) |-> h[k - i + 1].x])
Blocks(n) == LET idx == SelectSeq([k \in DOMAIN h |-> k], LAMBDA k : h[k].r /\ Sum(k, n) > 0 /\ Sum(k, n) * 100 >= 17 * n * 150) IN [i \in DOMAIN idx |-> Sum(idx[i], n)]
Defined == ~pend => ms = Sum(Len(h), 2) /\ ss = Sum(Len(h), 3) /\ ml = Blocks(2) /\ sl = Blocks(3)
\* a gated-out block never contributes; the result lies among the blocks
Largest(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= x
Gated == ml # <<>> => /\ Passed(ml) # <<>> /\ Integrated(ml) <= Largest(ml) /\ Integrated(ml) >= Mean(ml)
                      /\ \A i \in DOMAIN Passed(ml) : Passed(ml)[i] * 10 >= Mean(ml)
\* broken: the window forgets at the reset but the blocks do not
StaleBase == IF pend THEN [win |-> <<>>, ms |-> ms, ss |-> ss, ml |-> <<>>, sl |-> <<>>]
             ELSE [win |-> win, ms |-> ms, ss |-> ss, ml |-> ml, sl |-> sl]
ASSUME Mean(<<5, 6, 8>>) = 6 /\ Integrated(<<100, 9, 11, 100>>) = 55 /\ Integrated(<<100, 1, 100>>) = 100
ASSUME LowPlaces(21, 0) = {3} /\ HighPlaces(21, 0) = {20} /\ LowPlaces(6, 0) = {1, 2}
=============================================================================
