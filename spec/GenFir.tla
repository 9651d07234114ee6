------------------------------- MODULE GenFir -------------------------------
(* Behaviours of Fir to be replayed on the real code: each behaviour is a    *)
(* script of operations (block lengths, entry points, resets, new taps,      *)
(* copies); sample values are derived by the harness from a seed and logged. *)
(* Run with -simulate; sizes come from sets that straddle the vector widths. *)
EXTENDS Fir, TLC, Json, IOUtils
CONSTANTS Variants, TapCounts, BlockLens, Modes, MaxOps, Kinds
VARIABLES script, n
vars == <<f, script, n>>
Pick(S) == {RandomElement(S)}

RandTaps(k) == Force([i \in 1..k |-> RandomElement(-4..4)])
Init == n = 0 /\ f = <<>> /\ script = <<>>
Start == /\ n = 0 /\ n' = 1
         /\ \E v \in Pick(Variants), k \in Pick(TapCounts) : \E t \in {RandTaps(k)} :
              /\ script' = [v |-> v, taps |-> t, seed |-> RandomElement(1..1000000), p |-> RandomElement(0..7), ops |-> <<>>]
              /\ f' = [o \in {1, 2} |-> Fresh(t, 1)]
Add(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
GFeed(o) == \E b \in Pick(BlockLens) : Add(<<"F", o, RandomElement(Modes), b>>) /\ UNCHANGED f
GReset(o) == Add(<<"R", o>>) /\ Reset(o)
GTaps(o) == \E k \in Pick(TapCounts) : \E t \in {RandTaps(k)} : Add(<<"T", o>> \o <<Len(t)>> \o t) /\ SetTaps(o, t)
GCopy(o) == Add(<<"C", o, 3 - o>>) /\ CopyTo(o, 3 - o)
Step == /\ n > 0 /\ n <= MaxOps
        /\ \E k \in Pick(Kinds), o \in Pick({1, 2}) :
             CASE k[1] = "R" -> GReset(o) [] k[1] = "T" -> GTaps(o) [] k[1] = "C" -> GCopy(o) [] OTHER -> GFeed(o)
Finish == n = MaxOps + 1 /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<f, script>>
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
\* operation kinds, weighted towards feeding
AllKinds == {<<"F", i>> : i \in 1..7} \cup {<<"R", 0>>, <<"T", 0>>, <<"C", 0>>}
FeedKinds == {<<"F", i>> : i \in 1..9}
=============================================================================
