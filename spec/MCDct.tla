------------------------------- MODULE MCDct --------------------------------
(* Orthogonality behind the round trip rule, in exact arithmetic: the sum    *)
(* over k of the products of cosine entries, expanded by the product rule    *)
(* into sums of single cosines.  A sum of cosines of multiples of pi/2N is   *)
(* kept as a multiset of folded indices; sums over all k of cos(pi k m / N)  *)
(* are known integers, see CosSum.                                           *)
EXTENDS Dct, FiniteSets
CONSTANTS MaxN
VARIABLES a, b
\* sum_{k=0}^{N-1} cos(pi k m / N): N when 2N | m; 1 for odd m... for even m other than that 0
\* (m odd: pairs cancel except k=0, giving 1; m even: full turns, 0)
CosSum(N, m) == IF m % (2 * N) = 0 THEN N ELSE IF m % 2 = 1 THEN 1 ELSE 0
\* 2 * sum_k' X_k(e_a) cos(pi k (2b+1)/2N), X_k(e_a) = cos(pi k (2a+1)/2N), k = 0 halved:
\* product rule: cos u cos v = (cos(u-v) + cos(u+v)) / 2, the k = 0 term counts 1/2
Twice(N, i, j) == CosSum(N, i - j) + CosSum(N, i + j + 1) - 1
Init == size \in 1..MaxN /\ a = 0 /\ b = 0 /\ buf = [c \in Bufs |-> Unknown]
Next == \/ a < size - 1 /\ a' = a + 1 /\ UNCHANGED <<b, vars0>>
        \/ b < size - 1 /\ b' = b + 1 /\ UNCHANGED <<a, vars0>>
Spec == Init /\ [][Next]_<<a, b, vars0>>
RoundTrip == Twice(size, a, b) = IF a = b THEN size ELSE 0
IndexSymmetric == CosIndex(size, 0, a, b) = CosIndex(size, 1, b, a) /\ CosIndex(size, 0, a, b) \in 0..(2 * size)
=============================================================================
