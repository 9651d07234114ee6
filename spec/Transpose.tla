----------------------------- MODULE Transpose ------------------------------
(* Matrix transposition in one array: what it means, and the in-place method  *)
(* (square blocks, cycle following over blocks, row and column shifts,        *)
(* recursion on the remainder) as a list of steps over the flat contents.     *)
EXTENDS Integers, Sequences, Shape

Swap(m, a, b) == [m EXCEPT ![a] = m[b], ![b] = m[a]]
\* the meaning: axis i of the result is axis n + 1 - i of the argument
TransposedAt(sh, k) == ToFlat(sh, Reverse(FromFlat(Reverse(sh), k)))       \* which argument element lands at flat position k
Transposed(sh, m) == [k \in 1..Prod(sh) |-> m[TransposedAt(sh, k - 1) + 1]]

(* ---- the steps; positions are 0-based, b is the base of a submatrix ----   *)
SquareT(m, b, n, stride) == [k \in 1..Len(m) |->
  LET p == k - 1 - b r == p \div stride c == p % stride IN
  IF p >= 0 /\ r < n /\ c < n THEN m[b + c * stride + r + 1] ELSE m[k]]
\* rotation of [f, l) so that the element at mid comes first
Rotate(m, f, mid, l) == [k \in 1..Len(m) |-> LET p == k - 1 IN
  IF p < f \/ p >= l THEN m[k] ELSE m[((p - f + mid - f) % (l - f)) + f + 1]]
RECURSIVE RotR1(_, _, _, _, _, _), RotC1(_, _, _, _, _, _)
RotR1(m, b, done, rem, r, rows) == IF r >= rows THEN m
  ELSE LET p == b + done * r IN RotR1(Rotate(m, p, p + r * rem, p + done + r * rem), b, done, rem, r + 1, rows)
RotC1(m, b, done, rem, c, cols) == IF c < 1 THEN m
  ELSE LET p == b + done * c IN RotC1(Rotate(m, p, p + done, p + done + c * rem), b, done, rem, c - 1, cols)
ShiftRows(m, b, done, rows, cols) == RotR1(m, b, done, cols - done, 1, rows)
ShiftCols(m, b, done, rows, cols) == RotC1(m, b, done, rows - done, cols - 1, cols)
\* permutation of the blocks of `side` elements: block k receives block src(k), a transposition of the table sh of blocks
BlockPos(k, flat, s1, s2) == (k \div flat) * s1 + (k % flat) * s2

(* Cycle following with pairs: origin and its point reflection move together; a bit per pair. *)
Next2(sh, x) == ToFlat(Reverse(sh), Reverse(FromFlat(sh, x)))
=============================================================================
