------------------------------ MODULE MCConvert ------------------------------
(* All values of small formats through all pairs of formats.                  *)
EXTENDS Convert, TLC
CONSTANTS Scales, MaxCh, MaxN
VARIABLES v, si, so, r, b
vars == <<v, si, so, r, b>>
Init == /\ si \in Scales /\ so \in Scales /\ v \in (-si - 3)..(si + 3)
        /\ r = Conv(v, si, so) /\ b = Conv(Conv(v, si, so), so, si)
Next == v < si + 3 /\ v' = v + 1 /\ r' = Conv(v + 1, si, so) /\ b' = Conv(r', so, si) /\ UNCHANGED <<si, so>>
Spec == Init /\ [][Next]_vars
Abs(x) == IF x < 0 THEN -x ELSE x
InRange == Abs(r) <= so
FullScale == (v >= si => r = so) /\ (v <= -si => r = -so) /\ (v = 0 => r = 0)
HalfStep == 2 * Abs(r * si - Clip(v, si) * so) <= si
RoundTrip == so >= si => b = Clip(v, si)
Odd == Conv(-v, si, so) = -r
Monotone == [][r' >= r]_vars
ASSUME \A ch \in 1..MaxCh, n \in 0..MaxN : LET in == [c \in 1..ch |-> [f \in 1..n |-> 100 * c + f]] IN Deinter(Inter(in, ch, n), ch, n) = in
Trunc(x, s, t) == LET a == (IF x < 0 THEN -x ELSE x) q == (a * t) \div s IN IF x < 0 THEN -q ELSE q
=============================================================================
