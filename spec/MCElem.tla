------------------------------- MODULE MCElem ---------------------------------
(* Turning by the angles of Pythagorean triples and by quarters, forth and    *)
(* back in any order: where one gets to depends on the net turns alone.       *)
(* Mirror: the broken variant turns the other way by quarters.                *)
EXTENDS Elem, TLC
CONSTANTS MaxTurns, Mirror
VARIABLES t, n, k, w
vars == <<t, n, k, w>>
Init == t \in 1..3 /\ n = 0 /\ k = 0 /\ w = <<1, 0>>
Less(u) == <<u[1] \div (Hyp(t) * Hyp(t)), u[2] \div (Hyp(t) * Hyp(t))>>
Forth == n < MaxTurns /\ n' = n + 1 /\ w' = (IF n >= 0 THEN Mul(w, Legs(t)) ELSE Less(Mul(w, Legs(t)))) /\ UNCHANGED <<t, k>>
Back == n > -MaxTurns /\ n' = n - 1 /\ w' = (IF n <= 0 THEN Mul(w, Conj(Legs(t))) ELSE Less(Mul(w, Conj(Legs(t))))) /\ UNCHANGED <<t, k>>
More == k < 5 /\ k' = k + 1 /\ w' = Mul(w, IF Mirror THEN <<0, -1>> ELSE <<0, 1>>) /\ UNCHANGED <<t, n>>
Fewer == k > -5 /\ k' = k - 1 /\ w' = Mul(w, <<0, -1>>) /\ UNCHANGED <<t, n>>
Next == Forth \/ Back \/ More \/ Fewer
Spec == Init /\ [][Next]_vars
There == w = Point(t, n, k)
OnCircle == Norm(w) = Size(t, n) * Size(t, n)
\* the definitions agree with each other: Pythagoras for turns, hyperbolas and both at once; exponent = cosh + sinh
ASSUME \A p \in 1..12 : \A q \in 1..12 : Cosh(p, q) * Cosh(p, q) - Sinh(p, q) * Sinh(p, q) = 4 * p * p * q * q /\ Cosh(p, q) + Sinh(p, q) = 2 * p * p
ASSUME \A u \in 1..3 : \A m \in -1..1 : \A j \in 0..3 : \A p \in 1..4 : \A q \in 1..4 :
         LET x == Point(u, m, j)  z == 2 * p * q * Size(u, m)  add(a, b) == <<a[1] + b[1], a[2] + b[2]>> IN
         /\ add(Mul(CSin(x, p, q), CSin(x, p, q)), Mul(CCos(x, p, q), CCos(x, p, q))) = <<z * z, 0>>
         /\ add(Mul(CCosh(x, p, q), CCosh(x, p, q)), Scale(-1, Mul(CSinh(x, p, q), CSinh(x, p, q)))) = <<z * z, 0>>
         /\ add(CCosh(x, p, q), CSinh(x, p, q)) = Scale(2 * p * p, x)
ASSUME \A a \in -9..9 : \A b \in -9..9 : LET r == Principal(<<a, b>>) IN Mul(r, r) = Mul(<<a, b>>, <<a, b>>) /\ r[1] >= 0
\* interpolation meets its points, and is a line where the points are
ASSUME \A a \in -2..2 : \A b \in -2..2 : \A c \in -2..2 : \A d \in -2..2 :
         /\ Cubic(0, a, b, c, d) = 64 * b /\ Cubic(4, a, b, c, d) = 64 * c
         /\ CatmullRom(0, a, b, c, d) = 128 * b /\ CatmullRom(4, a, b, c, d) = 128 * c
         /\ \A m \in 0..4 : (b - a = c - b /\ c - b = d - c) => CatmullRom(m, a, b, c, d) = 32 * Linear(m, b, c)
\* what is promised of odd and even functions does not depend on the side
Mirrored(x) == CASE x = "inf" -> "-inf" [] x = "-inf" -> "inf" [] x = "big" -> "-big" [] x = "-big" -> "big" [] x = "1" -> "-1" [] x = "-1" -> "1"
                 [] x = "quarter" -> "-quarter" [] x = "-quarter" -> "quarter" [] OTHER -> x
ASSUME \A x \in Classes : /\ \A f \in {"sinh", "tanh", "coth", "atan", "asin"} : Special(f, Mirrored(x)) = Mirrored(Special(f, x))
                          /\ \A f \in {"cosh", "cos"} : Special(f, Mirrored(x)) = Special(f, x)
=============================================================================
