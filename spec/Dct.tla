--------------------------------- MODULE Dct --------------------------------
(* The unscaled cosine transform of type 2 and its inverse (type 3) over N   *)
(* samples.  Outputs for a unit impulse are cosines of multiples of          *)
(* pi / 2N; CosIndex is that multiple folded into 0..2N (cos is even and has *)
(* period 4N in these units).  Buffers are known as exact integer vectors:   *)
(* dom "t" samples N^pow/2^pow * v, dom "k" coefficients of v likewise.      *)
EXTENDS Integers, Sequences
VARIABLES size, buf
vars0 == <<size, buf>>
Bufs == 1..3
Unknown == [dom |-> "x", v |-> <<>>, pow |-> 0]
Fold(i, N) == LET m == i % (4 * N) IN IF m > 2 * N THEN 4 * N - m ELSE m
\* forward: X[k] = sum x[n] cos(pi k (2n+1) / 2N);  inverse: x[n] = X[0]/2 + sum_{k>0} X[k] cos(pi k (2n+1) / 2N)
CosIndex(N, dir, p, j) == IF dir = 0 THEN Fold(j * (2 * p + 1), N) ELSE Fold(p * (2 * j + 1), N)
Halved(dir, p) == dir = 1 /\ p = 0
Create(N) == size' = N /\ buf' = [b \in Bufs |-> Unknown]
Load(b, dom, v) == buf' = [buf EXCEPT ![b] = [dom |-> dom, v |-> v, pow |-> 0]] /\ UNCHANGED size
Exec(dir, dst, src) ==
  /\ buf[src].dom = (IF dir = 0 THEN "t" ELSE "k")
  /\ buf' = [buf EXCEPT ![dst] = [dom |-> IF dir = 0 THEN "k" ELSE "t", v |-> buf[src].v, pow |-> buf[src].pow + dir]]
  /\ UNCHANGED size
=============================================================================
