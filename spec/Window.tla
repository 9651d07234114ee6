------------------------------- MODULE Window --------------------------------
(* Windows, tone detectors, mixers, shapers, units and test signals: what     *)
(* each of them is by definition, in integers.                                *)
EXTENDS Integers, Sequences, SequencesExt
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* --- windows ----------------------------------------------------------------
\* n samples of a symmetric window; m steps from the first to the last one.
\* Sums of cosines of x = i / m: coefficients of cos(2 pi k x), k = 0, 1, ..., in units of 10^-9; a: the parameter in hundredths
Cosines(kind, a) ==
  CASE kind = "hann" -> <<500000000, -500000000>>
    [] kind = "hamming" -> <<10000000 * a, -10000000 * (100 - a)>>
    [] kind = "blackman" -> <<5000000 * (100 - a), -500000000, 5000000 * a>>
    [] kind = "blackman_harris" -> <<358750000, -488290000, 141280000, -11680000>>
    [] kind = "flattop" -> <<215578950, -416631580, 277263158, -83578947, 6947368>>
    \* the sines are known by their squares
    [] kind \in {"cosine", "cosine_np"} -> <<500000000, -500000000>>
CosineKinds == {"hann", "hamming", "blackman", "blackman_harris", "flattop", "cosine", "cosine_np"}
\* the j-th bin of the discrete transform over one period of m samples, divided by m; cosine_np lies half a sample off a period of n
Bin(c, m, j) == Sum([k \in 1..Len(c) |-> IF k = 1 THEN (IF j = 0 THEN c[1] ELSE 0)
                                         ELSE (IF (j - (k - 1)) % m = 0 THEN c[k] \div 2 ELSE 0) + (IF (j + (k - 1)) % m = 0 THEN c[k] \div 2 ELSE 0)])
\* the same for one cosine and samples half a step off: what folds back changes its sign
BinHalf(c, m, j) == IF m = 1 THEN c[1] - c[2]
                    ELSE IF j = 0 THEN c[1]
                    ELSE IF m = 2 THEN 0
                    ELSE IF j = 1 THEN c[2] \div 2 ELSE IF j = m - 1 THEN -(c[2] \div 2) ELSE 0
\* Everything else is monotone in the distance from the middle: what the harness gets by inverting the sample is
\* linear in that distance.  d: twice the distance from the middle, in steps
Far(n, i) == Abs(2 * (i - 1) - (n - 1))
Odd(n) == IF n % 2 = 1 THEN n + 1 ELSE n
Position(kind, n, i, a) ==
  LET m == n - 1  d == Far(n, i) IN
  CASE kind = "rectangular" -> 1
    [] kind = "triangular" -> Odd(n) - d                       \* times Odd(n)
    [] kind = "bartlett" -> m - d                              \* times m
    [] kind = "bartlett_hann" -> 62 * m - 24 * d               \* less its cosine, times 100 m
    [] kind = "bohman" -> d                                    \* arc cosine of what is left without the sine, over pi, times m
    [] kind = "gaussian" -> d                                  \* root of minus twice the logarithm over the parameter, times n
    [] kind = "lanczos" -> Min2(d, m - d)                      \* arc sine of window times phase, over pi, times m
    [] kind = "kaiser" -> m * m - d * d                        \* square of the inverse Bessel function over the parameter, times m^2
    [] kind \in {"tukey", "planck_taper"} -> Min2(20 * (m - d), m * a * (IF kind = "tukey" THEN 1 ELSE 2))  \* taper, up to 1, times 20 m a / 20
ShapeKinds == {"rectangular", "triangular", "bartlett", "bartlett_hann", "bohman", "gaussian", "lanczos", "kaiser", "tukey", "planck_taper"}

\* --- tone detector ----------------------------------------------------------
\* frequency k / u of a turn, u = 4 or 6: twice the cosine, and the sine over the unit (1, or half the root of three)
Cos2(u, k) == IF u = 4 THEN <<2, 0, -2, 0>>[1 + (k % 4)] ELSE <<2, 1, -1, -2, -1, 1>>[1 + (k % 6)]
Sin1(u, k) == IF u = 4 THEN <<0, 1, 0, -1>>[1 + (k % 4)] ELSE <<0, 1, 1, 0, -1, -1>>[1 + (k % 6)]
Tone(u, k, x) == <<Sum([i \in 1..Len(x) |-> x[i] * Cos2(u, k * (Len(x) - i))]), Sum([i \in 1..Len(x) |-> x[i] * Sin1(u, k * (Len(x) - i))])>>

\* --- mixing -----------------------------------------------------------------
Mix(chs) == [i \in 1..Len(chs[1]) |-> Sum([c \in 1..Len(chs) |-> chs[c][i]])]
Stereo(a, l, r) == <<[i \in 1..Len(l) |-> a[1] * l[i] + a[2] * r[i]], [i \in 1..Len(l) |-> a[3] * l[i] + a[4] * r[i]]>>

\* --- shapers, of x / 4 with the amount s; what comes out times the denominator
Sign(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Sq(x) == x * x
Shape(kind, s, c, x) ==
  CASE kind = "hardclip" -> IF x > s THEN s ELSE IF x < -s THEN -s ELSE x              \* limit s / 4; times 4
    [] kind = "saturate1" -> x * (1 + s)                                              \* times 4 + |s x|
    [] kind = "saturate2" -> Sign(x) * (Sq(4 + Abs(s * x)) - 16) * (Sq(s + 1) + 1)    \* times the next two
    [] kind = "tanh" -> x                                                             \* inverted
    [] kind = "poly" -> c[1] * 256 * x + c[2] * 16 * x * x * x + c[3] * x * x * x * x * x   \* times 4^5
ShapeScale(kind, s, x) ==
  CASE kind = "saturate1" -> 4 + Abs(s * x)
    [] kind = "saturate2" -> (Sq(4 + Abs(s * x)) + 16) * (Sq(s + 1) - 1)
    [] kind = "poly" -> 1024
    [] OTHER -> 4

\* --- oscillators: k 32nds of a turn; values times 32 (the square and the sine at quarters: times 1) ---
Saw(k) == 32 - 2 * (k % 32)
InverseSaw(k) == 2 * ((k + 16) % 32) - 32
Triangle(k) == 32 - Abs(4 * ((k + 8) % 32) - 64)
Square(k) == IF k % 32 < 16 THEN 1 ELSE -1
QuarterSine(k) == <<0, 1, 0, -1>>[1 + ((k \div 8) % 4)]
=============================================================================
