-------------------------------- MODULE Src ----------------------------------
(* A rate converter from ratio I : D (lowest terms) as a stream machine.      *)
(* Output k depends on the inputs up to LastIn(k); the kernel h has Depth taps  *)
(* per phase: output k is the sum over i of x[i] * h[k*D - i*I].  The state   *)
(* is the number of outputs made, the number of inputs consumed and the last  *)
(* Depth of those.                                                            *)
EXTENDS Integers, Sequences, Num

Div(a, b) == a \div b
\* the last input that output k uses, counting both from 0
LastIn(k, I, D) == Div(k * D, I)
\* inputs consumed after k outputs: a function of k alone
Used(k, I, D) == LastIn(k - 1, I, D) - Div(-D, I)
Need(k, n, I, D) == Used(k + n, I, D) - Used(k, I, D)
\* the most outputs that m more inputs are enough for
Room(k, m, I, D) == Div((m + LastIn(k - 1, I, D) + 1) * I + D - 1, D) - k

Fresh(depth) == [k |-> 0, line |-> [i \in 1..depth |-> 0]]
\* blk is what is given: short blocks are continued by silence, the rest of long ones is not looked at
Take(blk, need) == [i \in 1..need |-> IF i <= Len(blk) THEN blk[i] ELSE 0]
Out(s, blk, h, n, I, D, depth) ==
  LET base == Used(s.k, I, D) - depth            \* position of the first sample of ext
      ext == s.line \o Take(blk, Need(s.k, n, I, D)) IN
  [j \in 1..n |-> LET k == s.k + j - 1 IN
     NumSum([t \in 1..depth |-> LET i == LastIn(k, I, D) - t + 1 IN ext[i - base + 1] * h[k * D - i * I + 1]])]
After(s, blk, n, I, D, depth) ==
  LET need == Need(s.k, n, I, D) ext == s.line \o Take(blk, need) IN
  [k |-> s.k + n, line |-> SubSeq(ext, Len(ext) - depth + 1, Len(ext))]
Quiet(s, depth) == [s EXCEPT !.line = [i \in 1..depth |-> 0]]
=============================================================================
