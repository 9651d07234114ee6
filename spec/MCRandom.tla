------------------------------ MODULE MCRandom ------------------------------
(* A generator of two one-byte lanes: the step is a permutation of the states *)
(* (so different seeds have different streams), and generators, their copies  *)
(* and expressions holding copies or references do not disturb each other.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxDraws, Seeds
M == <<<<5>>, <<13>>>>
A == <<<<3>>, <<1>>>>
I == <<<<205>>, <<197>>>>
R == INSTANCE Random WITH LaneBytes <- 1, Lanes <- 2, Rot <- 1, Mul <- M, Add <- A, InvMul <- I
SomeSeeds == {<<0, 0>>, <<1, 2>>, <<255, 7>>}
VARIABLES gen, out, seed, own, eout, edrawn, ref, n
vars == <<gen, out, seed, own, eout, edrawn, ref, n>>
All == {<<a, b>> : a \in 0..255, b \in 0..255}
ASSUME \A s \in All : R!PrevState(R!NextState(s)) = s
ASSUME \A a \in 0..255 : \A r \in {1, 2, 3, 10, 255} : R!Scaled(<<a>>, r) \in 0..(r - 1)
ASSUME \A s \in Seeds : \A k \in 1..5, j \in 1..5 : R!Bytes(s, k + j) # <<>> /\ (k % 2 = 0 => R!Bytes(s, k + j) = R!Bytes(s, k) \o R!Bytes(R!After(s, k), j))
\* two generators and one expression made of the first, with a copy of its state or a reference to it
Init == /\ seed \in [1..2 -> Seeds] /\ gen = seed /\ out = [g \in 1..2 |-> <<>>] /\ n = 0
        /\ own = <<>> /\ eout = <<>> /\ edrawn = 0 /\ ref = FALSE
OthersU(g, s) == s
Draw == \E g \in 1..2, k \in {1, 2, 3} :
          /\ gen' = [h \in 1..2 |-> IF h = g THEN R!After(gen[g], k) ELSE OthersU(h, gen[h])]
          /\ out' = [out EXCEPT ![g] = @ \o R!Bytes(gen[g], k)] /\ seed' = seed
          /\ UNCHANGED <<own, eout, edrawn, ref>>
Make == own = <<>> /\ \E f \in BOOLEAN : ref' = f /\ own' = gen[1] /\ eout' = <<>> /\ edrawn' = 0 /\ UNCHANGED <<gen, out, seed>>
EDraw == /\ own # <<>> /\ \E k \in {1, 2} :
            IF ref THEN /\ gen' = [gen EXCEPT ![1] = R!After(gen[1], k)] /\ out' = [out EXCEPT ![1] = @ \o R!Bytes(gen[1], k)] /\ UNCHANGED <<own, eout, edrawn>>
            ELSE /\ own' = R!After(own, k) /\ eout' = eout \o R!Bytes(own, k) /\ edrawn' = edrawn + R!Blocks(k) /\ UNCHANGED <<gen, out>>
         /\ UNCHANGED <<seed, ref>>
Next == n < MaxDraws /\ n' = n + 1 /\ (Draw \/ Make \/ EDraw)
Spec == Init /\ [][Next]_vars
\* what a generator yields depends on its seed and on its own draws only: replaying the history of lengths
RECURSIVE Embed(_, _, _)
Embed(s, o, k) == IF o = <<>> THEN TRUE ELSE k > 0 /\ LET b == R!NextState(s) IN
   \/ (Len(o) >= 2 /\ SubSeq(o, 1, 2) = b /\ Embed(b, SubSeq(o, 3, Len(o)), k - 1))
   \/ (o[1] = b[1] /\ Embed(b, Tail(o), k - 1))
OwnStream == \A g \in 1..2 : Embed(seed[g], out[g], 2 * MaxDraws + 2)
Untouched == \A g \in 1..2 : out[g] = <<>> => gen[g] = seed[g]
Reach(s, t) == \E k \in 0..(2 * MaxDraws) : R!Run(s, k) = t
Separate == Reach(seed[1], gen[1]) /\ Reach(seed[2], gen[2]) /\ (own # <<>> => Reach(seed[1], own))
\* a step that moves the other generator too
Leak(g, s) == R!NextState(s)
=============================================================================
