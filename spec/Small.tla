------------------------------- MODULE Small ---------------------------------
(* Small containers as sequences, and exact fractions.  v: id -> sequence of  *)
(* the container's elements; q: fraction register -> <<numerator, denominator>> *)
EXTENDS Integers, Sequences
VARIABLES v, q
svars == <<v, q>>
Put(id, s) == [x \in DOMAIN v \cup {id} |-> IF x = id THEN s ELSE v[x]]
Drop(id) == [x \in DOMAIN v \ {id} |-> v[x]]
Same == UNCHANGED q
Set(id, s) == v' = Put(id, s) /\ Same
Pushed(s, x) == Append(s, x)
Popped(s) == SubSeq(s, 1, Len(s) - 1)
\* what survives a change of the size to n; elements beyond are not specified
Kept(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Write(s, i, x) == [s EXCEPT ![i] = x]
\* ---- fractions ----
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Norm(n, d) == LET g == GCD(Abs(n), Abs(d)) IN <<Sgn(d) * Sgn(n) * (Abs(n) \div g), Abs(d) \div g>>
Plus(x, y) == Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Minus(x, y) == Norm(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
Times(x, y) == Norm(x[1] * y[1], x[2] * y[2])
Over(x, y) == Norm(x[1] * y[2], x[2] * y[1])
Calc(op, x, y) == CASE op = "+" -> Plus(x, y) [] op = "-" -> Minus(x, y) [] op = "*" -> Times(x, y) [] OTHER -> Over(x, y)
Less(x, y) == x[1] * y[2] < y[1] * x[2]
\* towards zero
Whole(x) == Sgn(x[1]) * (Abs(x[1]) \div x[2])
Lowest(x) == x[2] > 0 /\ GCD(Abs(x[1]), x[2]) = 1
=============================================================================
