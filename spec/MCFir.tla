------------------------------- MODULE MCFir --------------------------------
(* Exhaustive check of the state machine of Fir: block independence, reset,  *)
(* independence of copies.  hist/got record everything fed/produced since    *)
(* creation or the last reset.                                               *)
EXTENDS Fir
CONSTANTS Values, TapSets, MaxBlock, MaxHist
VARIABLES hist, got
VS == {-1, 2}
TS == {<<3>>, <<1, -2>>, <<2, 0, 1>>}
vars == <<f, hist, got>>
Objs == {1, 2}
Blocks == UNION {[1..n -> Values] : n \in 0..MaxBlock}

Whole(t, x) == [i \in 1..Len(x) |->
                  NumSum([k \in 1..NumMin(Len(t), i) |-> t[k] * x[i - k + 1]])]

Init == /\ \E t \in TapSets : f = [o \in Objs |-> Fresh(t, 1)]
        /\ hist = [o \in Objs |-> <<>>]
        /\ got = [o \in Objs |-> <<>>]
DoFeed == \E o \in Objs, b \in Blocks :
            /\ Len(hist[o]) + Len(b) <= MaxHist
            /\ got' = [got EXCEPT ![o] = @ \o FeedOut(o, <<b>>)[1]]
            /\ hist' = [hist EXCEPT ![o] = @ \o b]
            /\ Feed(o, <<b>>)
DoReset == \E o \in Objs : Reset(o) /\ hist' = [hist EXCEPT ![o] = <<>>] /\ got' = [got EXCEPT ![o] = <<>>]
DoTaps == \E o \in Objs, t \in TapSets : SetTaps(o, t) /\ hist' = [hist EXCEPT ![o] = <<>>] /\ got' = [got EXCEPT ![o] = <<>>]
DoCopy == CopyTo(1, 2) /\ hist' = [hist EXCEPT ![2] = hist[1]] /\ got' = [got EXCEPT ![2] = got[1]]
Next == DoFeed \/ DoReset \/ DoTaps \/ DoCopy
Spec == Init /\ [][Next]_vars

\* The property: independent of how the history was cut into blocks.
BlockIndependent == \A o \in Objs : got[o] = Whole(f[o].taps, hist[o])
=============================================================================
