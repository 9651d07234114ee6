------------------------------- MODULE Random -------------------------------
(* The generator: a state of bytes, stepped lane by lane (multiply, add) and  *)
(* then rotated by bytes; every draw of N bytes takes whole steps and yields  *)
(* the first N bytes of the successive states.                                *)
EXTENDS Integers, Sequences
CONSTANTS LaneBytes, Lanes, Rot, Mul, Add, InvMul   \* Mul, Add, InvMul: a sequence of LaneBytes bytes per lane
Len16 == LaneBytes * Lanes
SubS(s, a, b) == [i \in 1..(b - a + 1) |-> s[a + i - 1]]
Fix(s) == SubSeq(s, 1, Len(s))

RECURSIVE SumTo(_, _, _, _)
SumTo(x, y, k, i) == IF i > k THEN 0 ELSE x[i] * y[k - i + 1] + SumTo(x, y, k, i + 1)
\* x * y + z modulo 256^LaneBytes, least significant byte first
RECURSIVE MulAddC(_, _, _, _, _)
MulAddC(x, y, z, k, carry) == IF k > Len(x) THEN <<>>
  ELSE LET t == SumTo(x, y, k, 1) + z[k] + carry IN <<t % 256>> \o MulAddC(x, y, z, k + 1, t \div 256)
MulAdd(x, y, z) == MulAddC(x, y, z, 1, 0)
RECURSIVE SubC(_, _, _, _)
SubC(x, z, k, borrow) == IF k > Len(x) THEN <<>>
  ELSE LET t == x[k] - z[k] - borrow IN <<t % 256>> \o SubC(x, z, k + 1, IF t < 0 THEN 1 ELSE 0)
Zero == [i \in 1..LaneBytes |-> 0]
Lane(s, l) == SubS(s, (l - 1) * LaneBytes + 1, l * LaneBytes)
RECURSIVE Join(_, _)
Join(f, l) == IF l > Lanes THEN <<>> ELSE f[l] \o Join(f, l + 1)
RotR(s, a) == [i \in 1..Len(s) |-> s[((i - 1 + Len(s) - a) % Len(s)) + 1]]
RotL(s, a) == [i \in 1..Len(s) |-> s[((i - 1 + a) % Len(s)) + 1]]
NextState(s) == Fix(RotR(Join([l \in 1..Lanes |-> MulAdd(Lane(s, l), Mul[l], Add[l])], 1), Rot))
PrevState(s) == LET u == Fix(RotL(s, Rot)) IN Fix(Join([l \in 1..Lanes |-> MulAdd(SubC(Lane(u, l), Add[l], 1, 0), InvMul[l], Zero)], 1))

Blocks(n) == (n + Len16 - 1) \div Len16
RECURSIVE Run(_, _)
Run(s, k) == IF k = 0 THEN s ELSE Run(NextState(s), k - 1)
RECURSIVE Stream(_, _)
Stream(s, k) == IF k = 0 THEN <<>> ELSE LET t == NextState(s) IN t \o Stream(t, k - 1)
\* a draw of n bytes
Bytes(s, n) == SubSeq(Stream(s, Blocks(n)), 1, n)
After(s, n) == Run(s, Blocks(n))

(* ---- values ---- *)
Group(bs, w) == [i \in 1..(Len(bs) \div w) |-> SubS(bs, (i - 1) * w + 1, i * w)]
Man32(b) == b[1] + 256 * b[2] + 65536 * (b[3] % 128)
Man64(b) == <<b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (b[4] % 4), (b[4] \div 4) + 64 * b[5] + 16384 * b[6] + 4194304 * (b[7] % 16)>>
RECURSIVE ScaleC(_, _, _, _)
ScaleC(b, r, k, c) == IF k > Len(b) THEN c ELSE ScaleC(b, r, k + 1, (b[k] * r + c) \div 256)
Scaled(b, r) == ScaleC(b, r, 1, 0)                    \* floor(u * r / 256^n)
=============================================================================
