--------------------------------- MODULE Big ---------------------------------
(* Integers beyond 32 bits: <<sign, limbs>>, limbs base 10000, least          *)
(* significant first, without leading zeros.                                  *)
EXTENDS Integers, Sequences
B == 10000
RECURSIVE BTrim(_)
BTrim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE BTrim(SubSeq(m, 1, Len(m) - 1))
At(m, i) == IF i \in 1..Len(m) THEN m[i] ELSE 0
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF At(a, i) # At(b, i) THEN (IF At(a, i) > At(b, i) THEN 1 ELSE -1) ELSE CmpAt(a, b, i - 1)
MCmp(a, b) == CmpAt(a, b, IF Len(a) > Len(b) THEN Len(a) ELSE Len(b))
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > Len(a) /\ i > Len(b) /\ c = 0 THEN <<>> ELSE LET t == At(a, i) + At(b, i) + c IN <<t % B>> \o AddC(a, b, i + 1, t \div B)
MAdd(a, b) == AddC(a, b, 1, 0)
RECURSIVE SubCy(_, _, _, _)
SubCy(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET t == At(a, i) - At(b, i) - c IN <<t % B>> \o SubCy(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
MSub(a, b) == BTrim(SubCy(a, b, 1, 0))                      \* a >= b
RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > k THEN 0 ELSE At(a, i) * At(b, k - i + 1) + ColSum(a, b, k, i + 1)
RECURSIVE MulCy(_, _, _, _)
MulCy(a, b, k, c) == IF k > Len(a) + Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET t == ColSum(a, b, k, 1) + c IN <<t % B>> \o MulCy(a, b, k + 1, t \div B)
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BTrim(MulCy(a, b, 1, 0))
RECURSIVE MOf(_)
MOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o MOf(n \div B)

Sign(x) == IF x[2] = <<>> THEN 1 ELSE x[1]
Num(n) == IF n < 0 THEN <<-1, MOf(-n)>> ELSE <<1, MOf(n)>>
Neg(x) == <<-x[1], x[2]>>
BMul(x, y) == <<Sign(x) * Sign(y), MMul(x[2], y[2])>>
BAdd(x, y) == IF Sign(x) = Sign(y) THEN <<Sign(x), MAdd(x[2], y[2])>>
              ELSE IF MCmp(x[2], y[2]) >= 0 THEN <<Sign(x), MSub(x[2], y[2])>> ELSE <<Sign(y), MSub(y[2], x[2])>>
BSub(x, y) == BAdd(x, Neg(y))
BAbs(x) == <<1, x[2]>>
BLeq(x, y) == LET d == BSub(y, x) IN d[2] = <<>> \/ d[1] = 1
BEq(x, y) == BSub(x, y)[2] = <<>>
=============================================================================
