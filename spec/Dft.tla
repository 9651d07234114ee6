--------------------------------- MODULE Dft --------------------------------
(* Transform plans and the buffers they work on.  A buffer never holds       *)
(* floating point numbers here: it is known as an exact integer vector in    *)
(* one of two domains,                                                       *)
(*   dom "t":  the samples are  P^pow * v                                    *)
(*   dom "f":  the samples are  P^pow * F(v),  F the defining (forward,      *)
(*             unscaled) transform of the plan's shape,                      *)
(* P being the number of elements.  The transforms then act exactly:         *)
(*   forward  : t/v -> f/v          f/v -> t/reverse(v), pow+1               *)
(*   inverse  : t/v -> f/reverse(v) f/v -> t/v, pow+1                        *)
(* (MCDft checks these rules against the defining sum in a finite field.)    *)
(* v is a flat sequence re,im,re,im,... in row-major order of the shape.     *)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES kind,   \* "c" complex, "r" real data with half spectra
          shape,  \* sequence of axis lengths
          buf     \* buffer id -> [dom, v, pow]; dom "x": content unknown
vars0 == <<kind, shape, buf>>

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Bufs == 1..3
Unknown == [dom |-> "x", v |-> <<>>, pow |-> 0]

\* ---- index arithmetic ----
\* flat offset (from 0) -> coordinates (sequence), row-major
Coord(sh, k) ==
  LET n == Len(sh)
      f[d \in 0..n] == IF d = 0 THEN [rest |-> k, c |-> <<>>]
                       ELSE LET r == f[d - 1].rest  ax == n - d + 1 IN
                            [rest |-> r \div sh[ax], c |-> <<r % sh[ax]>> \o f[d - 1].c]
  IN f[n].c
Flat(sh, c) == FoldLeftDomain(LAMBDA acc, d : acc * sh[d] + c[d], 0, sh)
Neg(sh, k) == LET c == Coord(sh, k) IN Flat(sh, [d \in 1..Len(sh) |-> (sh[d] - c[d]) % sh[d]])
Rev(sh, v) ==
  IF Len(sh) = 1
  THEN LET n == sh[1] IN [i \in 1..Len(v) |-> LET k == (i - 1) \div 2 IN v[2 * ((n - k) % n) + ((i - 1) % 2) + 1]]
  ELSE LET P == Prod(sh)  m == [k \in 0..P-1 |-> Neg(sh, k)] IN
       [i \in 1..Len(v) |-> v[2 * m[(i - 1) \div 2] + ((i - 1) % 2) + 1]]

\* ---- impulse responses: a unit impulse i^q at flat position p; element k of the result is the
\* root of unity with this index, in units of one turn / (4P) ----
Sgn(dir) == IF dir = 0 THEN -1 ELSE 1
RootIndex(sh, dir, p, q, k) ==
  LET P == Prod(sh) IN
  IF Len(sh) = 1 THEN (q * P + Sgn(dir) * 4 * ((p * k) % P)) % (4 * P)
  ELSE LET cp == Coord(sh, p)  ck == Coord(sh, k)
           s == FoldLeftDomain(LAMBDA acc, d : acc + ((cp[d] * ck[d]) % sh[d]) * (P \div sh[d]), 0, sh)
       IN (q * P + Sgn(dir) * 4 * (s % P)) % (4 * P)

\* ---- transitions ----
Create(k, sh) == kind' = k /\ shape' = sh /\ buf' = [b \in Bufs |-> Unknown]
Load(b, dom, v) == buf' = [buf EXCEPT ![b] = [dom |-> dom, v |-> v, pow |-> 0]] /\ UNCHANGED <<kind, shape>>
Result(dir, x) ==
  IF x.dom = "t" THEN [dom |-> "f", v |-> IF dir = 0 THEN x.v ELSE Rev(shape, x.v), pow |-> x.pow]
  ELSE [dom |-> "t", v |-> IF dir = 1 THEN x.v ELSE Rev(shape, x.v), pow |-> x.pow + 1]
\* a real plan transforms samples forward and half spectra backward only
Allowed(dir, x) == x.dom # "x" /\ (kind = "r" => (dir = 0) = (x.dom = "t"))
Exec(dir, dst, src) ==
  /\ Allowed(dir, buf[src])
  /\ buf' = [buf EXCEPT ![dst] = Result(dir, buf[src])]
  /\ UNCHANGED <<kind, shape>>

\* ---- buffer disposition of a chain of n stages ----
\* bit i of r: stage i reads scratch (else the input for stage 0, the output for later ones); mask bit i: stage i
\* may run in place.  Safe: no stage that cannot run in place reads the buffer it writes.
Bit(x, i) == (x \div 2^i) % 2 = 1
ReadsFrom(n, inplace, r, i) == IF Bit(r, i) THEN "scratch" ELSE IF i = 0 /\ ~inplace THEN "input" ELSE "output"
WritesTo(n, r, i) == IF i = n - 1 THEN "output" ELSE IF Bit(r, i + 1) THEN "scratch" ELSE "output"
SafeDisposition(n, mask, inplace, r) ==
  /\ r < 2^n
  /\ \A i \in 0..n-1 : ReadsFrom(n, inplace, r, i) = WritesTo(n, r, i) => Bit(mask, i)
=============================================================================
