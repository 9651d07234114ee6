----------------------------- MODULE GenOneShot -----------------------------
(* Pairs of lengths for the one-shot convolutions: every small pair, plus    *)
(* random larger ones.                                                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Small, Big, Kinds
VARIABLE s
Init == s = <<>>
Next == s = <<>> /\ \E a \in 1..Small, b \in 1..Small, v \in 20..23 :
          s' = <<a, b, v>> /\ PrintT(<<"SCRIPT", ToJson([v |-> v, a |-> a, b |-> b, k |-> (a + b) % 3, seed |-> a * 1000 + b])>>)
Spec == Init /\ [][Next]_s
=============================================================================
