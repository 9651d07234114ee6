------------------------------ MODULE MCWindow -------------------------------
(* The tone detector as the two-word recurrence it is computed by, fed in     *)
(* blocks: after every sample it stands for the definition.                   *)
(* Forget: the broken variant loses the older word at the end of a block.     *)
EXTENDS Window, TLC
CONSTANTS MaxLen, Values, Forget
VARIABLES u, k, x, q1, q2
vars == <<u, k, x, q1, q2>>
Init == u \in {4, 6} /\ k \in 0..(u - 1) /\ x = <<>> /\ q1 = 0 /\ q2 = 0
Run(b) == FoldLeft(LAMBDA q, v : <<Cos2(u, k) * q[1] - q[2] + v, q[1]>>, <<q1, q2>>, b)
Block == \E n \in 1..2 : \E b \in [1..n -> Values] :
           /\ Len(x) + n <= MaxLen
           /\ x' = x \o b /\ UNCHANGED <<u, k>>
           /\ LET q == Run(b) IN q1' = q[1] /\ q2' = (IF Forget THEN 0 ELSE q[2])
Next == Block
Spec == Init /\ [][Next]_vars
Defined == Tone(u, k, x) = <<2 * q1 - q2 * Cos2(u, k), q2 * Sin1(u, k)>>
\* what is known of the windows at any length: symmetric, nothing lost when periods are folded, halves of the simple ones add up
Bins(kind, a, m) == [j \in 1..m |-> Bin(Cosines(kind, a), m, j - 1)]
ASSUME \A kind \in CosineKinds : \A a \in {0, 16, 54, 100} : \A m \in 1..24 :
         /\ Sum(Bins(kind, a, m)) = Sum(Cosines(kind, a)) \/ \E i \in 2..Len(Cosines(kind, a)) : Cosines(kind, a)[i] % 2 = 1
         /\ \A j \in 1..(m - 1) : Bin(Cosines(kind, a), m, j) = Bin(Cosines(kind, a), m, m - j)
\* the tapers start at nothing, and no window lies above its middle
ASSUME \A n \in 2..24 : \A a \in 1..10 : \A i \in 1..n :
         /\ \A kind \in {"tukey", "planck_taper", "kaiser", "bartlett"} : Position(kind, n, 1, a) = 0 /\ Position(kind, n, i, a) >= 0
         /\ \A kind \in ShapeKinds : Position(kind, n, i, a) = Position(kind, n, n + 1 - i, a)
         /\ \A kind \in {"triangular", "bartlett", "bartlett_hann", "kaiser", "tukey", "planck_taper"} : Position(kind, n, i, a) <= Position(kind, n, (n + 1) \div 2, a)
\* the shapes: periodic, odd where they are, the two saws are mirror images, the triangle rises by four
ASSUME \A j \in -70..70 :
         /\ Saw(j + 32) = Saw(j) /\ Triangle(j + 32) = Triangle(j) /\ Triangle(-j) = -Triangle(j) /\ Square(j + 16) = -Square(j)
         /\ InverseSaw(j) = -Saw(j + 16) /\ Abs(Triangle(j + 1) - Triangle(j)) = 4
         /\ (j % 8 = 0 => Triangle(j) = 32 * QuarterSine(j))
=============================================================================
