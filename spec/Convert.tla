------------------------------- MODULE Convert -------------------------------
(* Sample formats: an integer format of full scale S holds -S..S (one more    *)
(* below), a value v of it stands for v / S.  Conversion goes to the nearest  *)
(* representable value of the clipped real; interleaving is a transposition.  *)
EXTENDS Integers, Sequences
Clip(v, s) == IF v > s THEN s ELSE IF v < -s THEN -s ELSE v
\* round half away from zero of v * so / si
Near(v, si, so) == LET a == (IF v < 0 THEN -v ELSE v) q == (2 * a * so + si) \div (2 * si) IN IF v < 0 THEN -q ELSE q
Conv(v, si, so) == Near(Clip(v, si), si, so)
\* frame f, channel c (from 0) of interleaved samples
Inter(in, ch, n) == [i \in 1..(ch * n) |-> in[((i - 1) % ch) + 1][((i - 1) \div ch) + 1]]
Deinter(x, ch, n) == [c \in 1..ch |-> [f \in 1..n |-> x[(f - 1) * ch + c]]]
=============================================================================
