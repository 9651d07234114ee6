------------------------------- MODULE Design --------------------------------
(* Design of recursive and non-recursive filters: the transfer function that  *)
(* comes out is the one that was asked for.                                   *)
(* A root is <<re>> (real) or <<re, im>> with im > 0 (a conjugate pair), in   *)
(* integers.  A filter is [z, p: sequences of roots, k: gain].                *)
EXTENDS Integers, Sequences, SequencesExt
Prod(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Deg(r) == FoldLeft(LAMBDA a, x : a + Len(x), 0, r)
\* b^deg times the product of (x - root) at x = a / b
At(r, a, b) == Prod([i \in 1..Len(r) |-> IF Len(r[i]) = 1 THEN a - b * r[i][1] ELSE (a - b * r[i][1]) * (a - b * r[i][1]) + b * b * r[i][2] * r[i][2]])
\* the value at a / b is Top / Bottom
Top(f, a, b) == f.k * At(f.z, a, b) * (IF Deg(f.p) >= Deg(f.z) THEN Pow(b, Deg(f.p) - Deg(f.z)) ELSE 1)
Bottom(f, a, b) == At(f.p, a, b) * (IF Deg(f.p) >= Deg(f.z) THEN 1 ELSE Pow(b, Deg(f.z) - Deg(f.p)))

\* --- sections ---------------------------------------------------------------
\* polynomials in the delay modulo a prime, as sequences of coefficients
Mul(m, x, y) == [i \in 1..(Len(x) + Len(y) - 1) |->
                   FoldLeft(LAMBDA a, j : IF i - j + 1 \in 1..Len(y) THEN (a + x[j] * y[i - j + 1]) % m ELSE a, 0, [j \in 1..Len(x) |-> j])]
Factor(m, r) == IF Len(r) = 1 THEN <<1, (-r[1]) % m>> ELSE <<1, (-2 * r[1]) % m, (r[1] * r[1] + r[2] * r[2]) % m>>
Full(m, g, rs) == FoldLeft(LAMBDA a, r : Mul(m, a, Factor(m, r)), <<g % m>>, rs)
Cascade(m, ss) == FoldLeft(LAMBDA a, c : Mul(m, a, [i \in 1..3 |-> c[i] % m]), <<1>>, ss)
Coef(x, i) == IF i \in 1..Len(x) THEN x[i] ELSE 0
SamePoly(x, y) == \A i \in 1..(Len(x) + Len(y)) : Coef(x, i) = Coef(y, i)
Larger(a, b) == IF a > b THEN a ELSE b
Primes == {46337, 46327}
\* sections <<b0, b1, b2, a0, a1, a2>> realise the filter, in as few of them as it needs
Realises(ss, f) == /\ Len(ss) = Larger(1, (Larger(Deg(f.z), Deg(f.p)) + 1) \div 2)
                   /\ \A m \in Primes : /\ SamePoly(Cascade(m, [i \in 1..Len(ss) |-> SubSeq(ss[i], 1, 3)]), Full(m, f.k, f.z))
                                        /\ SamePoly(Cascade(m, [i \in 1..Len(ss) |-> SubSeq(ss[i], 4, 6)]), Full(m, 1, f.p))

\* --- digital filters from analog ones ---------------------------------------
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Ratio(a, b) == LET g == Gcd(Abs(a), Abs(b))  s == IF b < 0 THEN -1 ELSE 1 IN <<s * (a \div g), s * (b \div g)>>
\* the frequency variable of the prototype at z = a / b; edges are the tangents u and v of half the normalized angular frequency
Proto(kind, u, v, a, b) ==
  LET c == a - b  d == a + b IN
  CASE kind = "lowpass" -> Ratio(c * u[2], d * u[1])
    [] kind = "highpass" -> Ratio(u[1] * d, u[2] * c)
    [] kind = "bandpass" -> Ratio(c * c * u[2] * v[2] + d * d * u[1] * v[1], (v[1] * u[2] - u[1] * v[2]) * c * d)
    [] kind = "bandstop" -> Ratio((v[1] * u[2] - u[1] * v[2]) * c * d, c * c * u[2] * v[2] + d * d * u[1] * v[1])
\* second order sections: t / n of s = x / y for the quality q1 / q2 and the amplitude v (of 1 / v when cut);
\* shelves: s is in units of the square root of two, w the root of the amplitude
Second(c2, c1, c0, x, y) == c2 * x * x + c1 * x * y + c0 * y * y
Biquad(kind, cut, q, v, x, y) ==
  LET base == Second(q[1], q[2], q[1], x, y)
      t == CASE kind = "lowpass" -> q[1] * y * y
             [] kind = "highpass" -> q[1] * x * x
             [] kind = "bandpass" -> q[2] * x * y
             [] kind = "notch" -> q[1] * (x * x + y * y)
             [] kind = "allpass" -> Second(q[1], -q[2], q[1], x, y)
             [] kind = "peak" -> Second(q[1], v * q[2], q[1], x, y)
             [] kind = "lowshelf" -> Second(1, 2 * v, 2 * v * v, x, y)
             [] kind = "highshelf" -> Second(v * v, 2 * v, 2, x, y)
      n == IF kind \in {"lowshelf", "highshelf"} THEN Second(1, 2, 2, x, y) ELSE base IN
  IF cut THEN <<n, t>> ELSE <<t, n>>

\* --- prototypes -------------------------------------------------------------
Cheb(n, x) == FoldLeft(LAMBDA s, i : <<s[2], 2 * x * s[2] - s[1]>>, <<1, x>>, [i \in 1..n |-> i])[1]
\* square of the Chebyshev polynomial at a point whose square is w
ChebSq(n, w) == (1 + Cheb(n, 2 * w - 1)) \div 2
\* the same over a common denominator: q^n times it at w / q
ChebSqH(n, w, q) == (Pow(q, n) + FoldLeft(LAMBDA s, i : <<s[2], 2 * (2 * w - q) * s[2] - q * q * s[1]>>, <<1, 2 * w - q>>, [i \in 1..n |-> i])[1]) \div 2
\* power (value at s times value at -s) of the prototype at s = pr, as numerator and denominator
Power(kind, n, e, pr) ==
  LET w == -pr[1] * pr[1]  q == pr[2] * pr[2] IN
  CASE kind = "butterworth" -> <<Pow(q, n), Pow(q, n) + Pow(w, n)>>
    [] kind = "chebyshev1" -> <<Pow(q, n), Pow(q, n) + e * ChebSqH(n, w, q)>>
    [] kind = "chebyshev2" -> LET t == ChebSqH(n, -q, -w) IN <<t, t + e * Pow(-w, n)>>

\* a millionth of Bessel's polynomial of order n at s over its value at zero
BesselMicro(n, s) == FoldLeft(LAMBDA a, k : LET c == (a[1] * 2 * (n - k) * s) \div ((2 * n - k) * (k + 1)) IN <<c, a[2] + c>>,
                              <<1000000, 1000000>>, [i \in 1..n |-> i - 1])[2]

\* --- windowed sinc ----------------------------------------------------------
\* four times the square of the sine of j * 30 degrees, with its sign
Sine(j) == << 0, 1, 3, 4, 3, 1, 0, -1, -3, -4, -3, -1 >>[1 + (j % 12)]
=============================================================================
