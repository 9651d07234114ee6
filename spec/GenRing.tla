------------------------------- MODULE GenRing ------------------------------
(* Two generators: every single transfer (position, length) exhaustively, and*)
(* random histories.                                                         *)
EXTENDS Ring, TLC, Json
CONSTANTS Variants, Sizes, MaxOps, Exhaustive
VARIABLES script, n
vars == <<mem, cur, script, n>>
Pick(S) == {RandomElement(S)}
\* exhaustive: a step to position k, then one write or read of length m by any method
ExLens(s) == 0..(3 * s + 1)
Init == /\ mem = <<0>> /\ cur = [c \in {1, 2} |-> 0] /\ script = <<>>
        /\ n = 0
ExNext == /\ Exhaustive /\ n = 0 /\ n' = 1
          /\ \E v \in Variants, s \in Sizes : \E k \in 0..s-1, m \in ExLens(s) :
             script' = [v |-> v, s |-> s, ops |-> <<<<"P", 1, k>>, <<"P", 2, k>>, <<"W", 1, m>>, <<"R", 2, m>>, <<"P", 1, m>>, <<"R", 1, 1>>, <<"W", 2, 1>>>>]
          /\ UNCHANGED <<mem, cur>>
ExEnd == Exhaustive /\ n = 1 /\ n' = 2 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<mem, cur, script>>
Start == /\ ~Exhaustive /\ n = 0 /\ n' = 1
         /\ \E v \in Pick(Variants), s \in Pick(Sizes) : script' = [v |-> v, s |-> s, ops |-> <<>>] /\ mem' = Zeros(s) /\ UNCHANGED cur
Add(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1 /\ UNCHANGED <<mem, cur>>
GStep == /\ ~Exhaustive /\ n > 0 /\ n <= MaxOps
         /\ \E k \in Pick({"W", "R", "V", "Q", "S", "T", "P"}), c \in Pick({1, 2}) :
            IF k \in {"V", "Q"} THEN \E m \in Pick({1, 2, 3, 4, 8}) : Add(<<k, c, m>>)
            ELSE \E m \in Pick(0..(2 * Size + 2)) : Add(<<k, c, m>>)
Finish == ~Exhaustive /\ n = MaxOps + 1 /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<mem, cur, script>>
Next == ExNext \/ ExEnd \/ Start \/ GStep \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
