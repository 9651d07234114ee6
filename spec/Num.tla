-------------------------------- MODULE Num ---------------------------------
(* Small arithmetic toolbox over integer sequences.                          *)
EXTENDS Integers, Sequences, SequencesExt

NumMin(a, b) == IF a < b THEN a ELSE b
NumMax(a, b) == IF a > b THEN a ELSE b
NumAbs(a) == IF a < 0 THEN -a ELSE a
NumSum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
NumProd(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Zeros(n) == [i \in 1..n |-> 0]
CeilDiv(a, b) == (a + b - 1) \div b
IsPow2(n) == \E k \in 0..30 : n = 2^k

\* sum over k of a[k] * b[i-k+1]: one output of a causal convolution, b indexed from 1
ConvAt(a, b, i) == FoldLeftDomain(LAMBDA acc, k : acc + a[k] * b[i - k + 1], 0, a)
\* Lazy function values are re-evaluated on each application by TLC; Force turns one into an explicit tuple.
Force(s) == SubSeq(s, 1, Len(s))
=============================================================================
