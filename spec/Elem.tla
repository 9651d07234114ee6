-------------------------------- MODULE Elem ---------------------------------
(* Elementary functions of real and complex numbers, by the identities that   *)
(* tie them to whole numbers: turns are powers of Gaussian integers,          *)
(* hyperbolic functions of logarithms of fractions are fractions, powers and  *)
(* logarithms undo each other, and so on.                                     *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
\* --- complex integers <<re, im>> --------------------------------------------
Mul(u, v) == <<u[1] * v[1] - u[2] * v[2], u[1] * v[2] + u[2] * v[1]>>
Conj(u) == <<u[1], -u[2]>>
Norm(u) == u[1] * u[1] + u[2] * u[2]
Scale(a, u) == <<a * u[1], a * u[2]>>
RECURSIVE CPow(_, _), IPow(_, _), Fact(_)
CPow(u, n) == IF n = 0 THEN <<1, 0>> ELSE Mul(u, CPow(u, n - 1))
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
\* an angle: n times that of a Pythagorean triple, and k quarter turns; what it points at, times Hyp^|n|
Legs(t) == <<<<4, 3>>, <<12, 5>>, <<15, 8>>>>[t]
Hyp(t) == <<5, 13, 17>>[t]
Quarter(k) == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>[1 + (k % 4)]
Point(t, n, k) == Mul(CPow(IF n < 0 THEN Conj(Legs(t)) ELSE Legs(t), Abs(n)), Quarter(k))
Size(t, n) == IPow(Hyp(t), Abs(n))
\* a principal root of w^2
Principal(w) == IF w[1] > 0 \/ (w[1] = 0 /\ w[2] >= 0) THEN w ELSE Scale(-1, w)
\* --- hyperbolic functions of ln(p / q) ----------------------------------------
Sinh(p, q) == p * p - q * q       \* times 2 p q
Cosh(p, q) == p * p + q * q       \* times 2 p q
\* --- of theta + i ln(p / q), or of ln(p / q) + i theta; times 2 p q Size ---
CSin(w, p, q) == <<w[2] * Cosh(p, q), w[1] * Sinh(p, q)>>
CCos(w, p, q) == <<w[1] * Cosh(p, q), -w[2] * Sinh(p, q)>>
CSinh(w, p, q) == <<w[1] * Sinh(p, q), w[2] * Cosh(p, q)>>
CCosh(w, p, q) == <<w[1] * Cosh(p, q), w[2] * Sinh(p, q)>>
\* --- where a function has nothing to compute: what it becomes -----------------
\* "any": nothing is promised
Special(f, x) ==
  IF x = "nan" THEN "nan" ELSE
  CASE f = "exp" /\ x \in {"0", "-0", "tiny"} -> "1"
    [] f \in {"exp", "exp2", "exp10"} /\ x \in {"-inf", "-big"} -> "0"
    [] f \in {"exp", "exp2", "exp10"} /\ x \in {"inf", "big"} -> "inf"
    [] f \in {"exp2", "exp10"} /\ x \in {"0", "-0", "tiny"} -> "1"
    [] f \in {"log", "log2", "log10"} /\ x \in {"0", "-0"} -> "-inf"
    [] f \in {"log", "log2", "log10"} /\ x = "1" -> "0"
    [] f \in {"log", "log2", "log10"} /\ x = "inf" -> "inf"
    [] f \in {"log", "log2", "log10"} /\ x \in {"-1", "-big", "-inf"} -> "nan"
    [] f = "sqrt" /\ x \in {"0", "-0"} -> "0"
    [] f = "sqrt" /\ x \in {"1", "inf"} -> x
    [] f = "sqrt" /\ x \in {"-1", "-big", "-inf"} -> "nan"
    [] f \in {"sin", "tan", "sinh", "tanh", "atan", "asin", "cbrt"} /\ x \in {"0", "-0"} -> "0"
    [] f \in {"cos", "cosh", "sinc"} /\ x \in {"0", "-0", "tiny"} -> "1"
    [] f \in {"tanh", "coth"} /\ x \in {"big", "inf"} -> "1"
    [] f \in {"tanh", "coth"} /\ x \in {"-big", "-inf"} -> "-1"
    [] f = "cosh" /\ x \in {"big", "-big", "inf", "-inf"} -> "inf"
    [] f = "sinh" /\ x \in {"big", "inf"} -> "inf"
    [] f = "sinh" /\ x \in {"-big", "-inf"} -> "-inf"
    [] f = "atan" /\ x \in {"big", "inf"} -> "quarter"
    [] f = "atan" /\ x \in {"-big", "-inf"} -> "-quarter"
    [] f = "asin" /\ x = "1" -> "quarter"
    [] f = "asin" /\ x = "-1" -> "-quarter"
    [] f = "acos" /\ x \in {"0", "-0"} -> "quarter"
    [] f = "acos" /\ x = "-1" -> "half"
    [] f = "acos" /\ x = "1" -> "0"
    [] f \in {"asin", "acos"} /\ x \in {"big", "-big", "inf", "-inf"} -> "nan"
    [] f = "pow0" -> "1"
    [] f = "0pow" /\ x \in {"1", "big", "inf"} -> "0"
    [] f = "0pow" /\ x \in {"0", "-0"} -> "1"
    [] f = "0pow" /\ x \in {"-1", "-big", "-inf"} -> "inf"
    [] OTHER -> "any"
SpecialOf(f, x) == IF f = "pow0" THEN "1" ELSE Special(f, x)
Classes == {"0", "-0", "1", "-1", "inf", "-inf", "nan", "big", "-big", "tiny"}
Functions == {"exp", "exp2", "exp10", "log", "log2", "log10", "sqrt", "sin", "cos", "tan", "sinh", "cosh", "tanh", "coth", "atan", "asin", "acos", "cbrt", "sinc", "pow0", "0pow"}
\* the direction of (x, y) with coordinates of which some are infinite or nothing, in eighths of turns
Direction(y, x) ==
  LET inf(v) == v \in {"inf", "-inf"}
      neg(v) == v \in {"-inf", "-1"}
      s == IF neg(y) THEN -1 ELSE 1 IN
  IF inf(y) /\ inf(x) THEN s * (IF neg(x) THEN 3 ELSE 1)
  ELSE IF inf(y) THEN 2 * s
  ELSE IF inf(x) THEN IF neg(x) THEN 4 * s ELSE 0
  ELSE IF y = "0" THEN (IF neg(x) THEN 4 ELSE 0)
  ELSE IF x \in {"0", "-0"} THEN 2 * s
  ELSE s * (IF neg(x) THEN 3 ELSE 1)
\* --- interpolation at m quarters of the way from b to c, neighbours a and d ---
Nearest(m, b, c) == IF m < 2 THEN b ELSE c
Linear(m, b, c) == (4 - m) * b + m * c                                         \* times 4
Poly(m, c0, c1, c2, c3) == 64 * c0 + 16 * m * c1 + 4 * m * m * c2 + m * m * m * c3   \* times 64
Cubic(m, a, b, c, d) == LET e == d - c - a + b IN Poly(m, b, c - a, a - b - e, e)    \* times 64
CatmullRom(m, a, b, c, d) == Poly(m, 2 * b, c - a, 2 * a - 5 * b + 4 * c - d, 3 * (b - c) + d - a)   \* times 128
=============================================================================
