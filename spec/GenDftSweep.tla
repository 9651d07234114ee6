----------------------------- MODULE GenDftSweep ----------------------------
(* Every length Lo..Hi (times Mul), both directions, in place and not: all   *)
(* impulse positions (operation "A").                                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Lo, Hi, Mul, Kind, Variants, Flags
VARIABLES script, n
Init == script = <<>> /\ n = 0
Ops == IF Kind = "c" THEN <<<<"A", 0, 0, 0>>, <<"A", 1, 0, 1>>>> ELSE <<<<"A", 0, 0, 0>>, <<"A", 0, 2, 1>>>>
Make == n = 0 /\ n' = 1 /\ \E v \in Variants, f \in Flags, N \in Lo..Hi : script' = [v |-> v, k |-> Kind, f |-> f, shape |-> <<N * Mul>>, ops |-> Ops]
Finish == n = 1 /\ n' = 2 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Make \/ Finish
Spec == Init /\ [][Next]_<<script, n>>
=============================================================================
