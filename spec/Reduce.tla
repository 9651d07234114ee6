------------------------------- MODULE Reduce -------------------------------
(* Reductions (one value out of all elements) and histograms.                *)
EXTENDS Num

Big == 2000000000          \* stands for the identity of min (and, negated, of max)
NoOp == {"add", "mul", "min", "max", "absmin", "absmax"}
Ident(op) == CASE op = "add" -> 0 [] op = "mul" -> 1 [] op \in {"min", "absmin"} -> Big [] op = "max" -> -Big [] op = "absmax" -> 0
Comb(op, a, b) == CASE op = "add" -> a + b [] op = "mul" -> a * b
                    [] op = "min" -> NumMin(a, b) [] op = "max" -> NumMax(a, b)
                    [] op = "absmin" -> NumMin(NumAbs(a), NumAbs(b)) [] op = "absmax" -> NumMax(NumAbs(a), NumAbs(b))
Tran(tr, x) == IF tr = "sqr" THEN x * x ELSE x
\* the defining meaning: every element once, one by one
Fold(op, tr, xs) == FoldLeft(LAMBDA acc, x : Comb(op, acc, Tran(tr, x)), Ident(op), xs)

\* bits
RECURSIVE BitOp(_, _, _, _)
BitOp(op, a, b, k) == IF k = 0 THEN 0 ELSE
  LET x == a % 2 y == b % 2 r == CASE op = "band" -> x * y [] op = "bor" -> NumMax(x, y) [] op = "bxor" -> (x + y) % 2
  IN r + 2 * BitOp(op, a \div 2, b \div 2, k - 1)
BitFold(op, xs) == FoldLeft(LAMBDA acc, x : BitOp(op, acc, x, 8), IF op = "band" THEN 255 ELSE 0, xs)

Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

(* The vectorised accumulator: W lanes and a counter.                         *)
NewAcc(op, W) == [lanes |-> [i \in 1..W |-> Ident(op)], n |-> 0]
RECURSIVE Feed(_, _, _, _)
Feed(op, tr, lanes, xs) ==
  IF Len(xs) > Len(lanes) THEN Feed(op, tr, Feed(op, tr, lanes, SubSeq(xs, 1, Len(xs) \div 2)), SubSeq(xs, Len(xs) \div 2 + 1, Len(xs)))
  ELSE [i \in 1..Len(lanes) |-> IF i <= Len(xs) THEN Comb(op, Tran(tr, xs[i]), lanes[i]) ELSE lanes[i]]
Put(op, tr, acc, xs) == [lanes |-> Force(Feed(op, tr, acc.lanes, xs)), n |-> acc.n + Len(xs)]
Horizontal(op, acc) == FoldLeft(LAMBDA a, x : Comb(op, a, x), Ident(op), acc.lanes)

(* Histograms: h[1] = below, h[2..k+1] = bins, h[k+2] = above.                *)
NewHist(k) == [i \in 1..(k + 2) |-> 0]
IntCell(k, x) == IF x < 0 THEN 1 ELSE IF x >= k THEN k + 2 ELSE x + 2
\* real samples are given in 64ths of the interval [0, 1]; the bin is the rounded one, the last bin also holds 1
RealCell(k, q) == IF q < 0 THEN 1 ELSE IF q > 64 THEN k + 2 ELSE NumMin((2 * q * k + 64) \div 128, k - 1) + 2
Cell(kind, k, x) == IF kind = "int" THEN IntCell(k, x) ELSE RealCell(k, x)
Count(kind, h, xs) == FoldLeft(LAMBDA g, x : [g EXCEPT ![Cell(kind, Len(h) - 2, x)] = @ + 1], h, xs)
=============================================================================
