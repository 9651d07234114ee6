---------------------------------- MODULE Vec --------------------------------
(* Vector operations lane by lane.                                            *)
(*  Perm: what each lane of the result of a rearrangement is taken from.      *)
(*  Int:  lanes are integers, written as their bytes, least significant first.*)
(*  Flt:  lanes are numbers in sixteenths, with the special values below.     *)
(*  Mem:  loads and stores; the state is the memory.                          *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
Free == -1      \* a lane whose value is not specified
Extra == -2    \* the additional value given to the operation
Gen(n, F(_)) == [i \in 1..n |-> F(i - 1)]
RECURSIVE PrevPow2(_)
PrevPow2(n) == IF n <= 1 THEN 1 ELSE 2 * PrevPow2(n \div 2)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
Range0(a, n) == Gen(n, LAMBDA i : a + i)
\* apply an arrangement of groups of g lanes
Groups(g, s) == Gen(g * Len(s), LAMBDA i : s[(i \div g) + 1] * g + (i % g))
\* the digits of i in the given base, reversed
RECURSIVE Digits(_, _, _)
Digits(i, base, k) == IF k = 0 THEN 0 ELSE (i % base) * (base ^ (k - 1)) + Digits(i \div base, base, k - 1)
\* a matrix of rows of c lanes, transposed: rows of (size / c) lanes
Transposed(size, c) == LET r == size \div c IN Gen(size, LAMBDA i : (i % r) * c + (i \div r))
Id(n) == Range0(0, n)
\* the same pattern in each run of Len(pat) lanes
InRuns(pat, n) == Gen(n, LAMBDA i : pat[(i % Len(pat)) + 1] + (i \div Len(pat)) * Len(pat))

Perm(op, p, n) ==
  CASE op = "low" -> Id(PrevPow2(n - 1))
    [] op = "high" -> Range0(PrevPow2(n - 1), n - PrevPow2(n - 1))
    [] op = "lowhalf" -> Id(n \div 2)
    [] op = "highhalf" -> Range0(n \div 2, n - (n \div 2))
    [] op = "concat2" -> Id(2 * n)
    [] op = "concat3" -> Id(2 * n) \o Id(n)
    [] op = "concat4" -> Id(n) \o Range0(n, n) \o Range0(n, n) \o Id(n)
    [] op \in {"repeat", "resize"} -> Gen(IF op = "repeat" THEN p[1] * n ELSE p[1], LAMBDA i : i % n)
    [] op = "broadcast" -> Gen(p[1], LAMBDA i : (i % 2) * n)
    [] op = "padhigh" -> Id(n) \o Gen(p[1], LAMBDA i : Extra)
    [] op = "padlow" -> Gen(p[1], LAMBDA i : Extra) \o Id(n)
    [] op = "padhighany" -> Id(n) \o Gen(p[1], LAMBDA i : Free)
    [] op = "padlowany" -> Gen(p[1], LAMBDA i : Free) \o Id(n)
    [] op = "extend" -> Gen(p[1], LAMBDA i : IF n = 1 THEN 0 ELSE IF i < n THEN i ELSE Free)
    [] op \in {"slice", "slice2"} -> Range0(p[1], p[2])
    [] op = "split" -> Id(n)
    [] op = "part" -> Range0(p[2] * (n \div p[1]), n \div p[1])
    [] op = "cas" -> Range0(p[1], p[2])                       \* of x and the first p[3] lanes of y
    [] op = "sac" -> LET s == Id(p[3]) \o Range0(n, n) IN SubSeq(s, p[1] + 1, p[1] + p[2])  \* of the first p[3] lanes of x, and y
    [] op = "widen" -> Id(n) \o Gen(p[1] - n, LAMBDA i : Extra)
    [] op = "narrow" -> Id(p[1])
    [] op = "even" -> Groups(p[1], Gen(n \div (2 * p[1]), LAMBDA i : 2 * i))
    [] op = "odd" -> Groups(p[1], Gen(n \div (2 * p[1]), LAMBDA i : 2 * i + 1))
    [] op = "dupeven" -> Gen(n, LAMBDA i : i - (i % 2))
    [] op = "dupodd" -> Gen(n, LAMBDA i : i - (i % 2) + 1)
    [] op = "duphalves" -> Id(n) \o Id(n)
    [] op = "dup" -> Gen(2 * n, LAMBDA i : i \div 2)
    [] op = "duplow" -> Gen(n, LAMBDA i : i % (n \div 2))
    [] op = "duphigh" -> Gen(n, LAMBDA i : (i % (n \div 2)) + (n - (n \div 2)))
    [] op = "shuffle" -> LET pat == Gen(2, LAMBDA i : IF i = 0 THEN p[1] ELSE p[2] + n) IN InRuns(pat, n)
    [] op = "permute" -> InRuns(p, n)
    [] op = "permutegroups" -> Groups(p[1], InRuns(Tail(p), n \div p[1]))
    [] op = "shufflegroups" -> Groups(p[1], InRuns(<<p[2], p[3] + (n \div p[1])>>, n \div p[1]))
    [] op = "blend" -> Gen(n, LAMBDA i : i + (IF p[(i % Len(p)) + 1] = 1 THEN n ELSE 0))
    [] op = "swap" -> Gen(n, LAMBDA i : (i - (i % p[1])) + (p[1] - 1 - (i % p[1])))
    [] op = "rotatetwo" -> IF p[1] = 0 THEN Id(n) ELSE IF p[1] = n THEN Range0(n, n) ELSE Range0(2 * n - p[1], p[1]) \o Id(n - p[1])
    [] op = "rotateright" -> Gen(n, LAMBDA i : ((i + n) - p[1]) % n)
    [] op = "rotateleft" -> Gen(n, LAMBDA i : (i + p[1]) % n)
    [] op = "insertright" -> Range0(1, n - 1) \o <<Extra>>
    [] op = "insertleft" -> <<Extra>> \o Id(n - 1)
    [] op = "transpose" -> IF n \div p[2] <= 3 THEN Id(n) ELSE Groups(p[2], Transposed(n \div p[2], p[1]))
    [] op = "transposeinverse" -> IF n \div p[2] <= 3 THEN Id(n) ELSE Groups(p[2], Transposed(n \div p[2], (n \div p[2]) \div p[1]))
    [] op = "interleave" -> Groups(p[1], Gen(2 * (n \div p[1]), LAMBDA i : (i % 2) * (n \div p[1]) + (i \div 2)))
    [] op = "zip" -> Gen(2 * n, LAMBDA i : (i % 2) * n + (i \div 2))
    [] op = "zip4" -> LET s == Id(n) \o Range0(n, n) \o Range0(n, n) \o Id(n) IN Gen(4 * n, LAMBDA i : s[(i % 4) * n + (i \div 4) + 1])
    [] op = "column" -> Gen(n \div p[1], LAMBDA i : i * p[1] + p[2])
    [] op = "packtranspose" -> Gen(2 * n, LAMBDA i : (i % 2) * n + (i \div 2))
    [] op = "interleavehalves" -> Groups(p[1], Transposed(n \div p[1], (n \div p[1]) \div 2))
    [] op = "splitpairs" -> Groups(p[1], Transposed(n \div p[1], 2))
    [] op = "reverse" -> Groups(p[1], Gen(n \div p[1], LAMBDA i : (n \div p[1]) - 1 - i))
    [] op = "combine" -> Gen(n, LAMBDA i : IF i < p[1] THEN n + i ELSE i)
    [] op = "bitreverse" -> Groups(p[1], Gen(n \div p[1], LAMBDA i : Digits(i, 2, Log2(n \div p[1]))))
    [] op = "digitreverse4" -> Groups(p[1], Gen(n \div p[1], LAMBDA i : Digits(i, 4, Log2(n \div p[1]) \div 2)))
    [] op = "set" -> Gen(n, LAMBDA i : IF i = p[1] THEN Extra ELSE i)
    [] op = "lambda" -> Gen(n, LAMBDA i : n + (n - 1 - i))

Divides(d, n) == n % d = 0
EvenN(n) == n >= 2 /\ n % 2 = 0
Gs(n) == { g \in {1, 2, 4} : Divides(g, n) }
\* the operations possible on n lanes, with the parameters tried
PermOps(n) ==
     { <<op, <<>>>> : op \in {"concat2", "concat3", "concat4", "duphalves", "dup", "zip", "zip4", "lambda", "packtranspose"} }
  \cup (IF n >= 2 THEN { <<op, <<>>>> : op \in {"low", "high", "lowhalf", "highhalf", "insertright", "insertleft"} } ELSE {})
  \cup (IF EvenN(n) THEN { <<op, <<>>>> : op \in {"dupeven", "dupodd", "duplow", "duphigh"} } ELSE {})
  \cup { <<"repeat", <<k>>>> : k \in {2, 3} } \cup { <<"resize", <<k>>>> : k \in {n, n + 1, 2 * n, (n + 1) \div 2} }
  \cup { <<"broadcast", <<k>>>> : k \in {2, n + 1, 2 * n} }
  \cup { <<op, <<k>>>> : op \in {"padhigh", "padlow", "padhighany", "padlowany"}, k \in {1, 3, n} }
  \cup { <<"extend", <<k>>>> : k \in {n + 1, 2 * n} } \cup { <<"widen", <<k>>>> : k \in {n + 1, 2 * n} } \cup { <<"narrow", <<k>>>> : k \in {1, (n + 1) \div 2, n} }
  \cup { x \in { <<"slice", <<s, k>>>> : s \in {0, 1, n \div 2, n - 1}, k \in {1, 2, n \div 2, n - 1} } : x[2][2] > 0 /\ x[2][1] + x[2][2] <= n }
  \cup { x \in { <<"slice2", <<s, k>>>> : s \in {0, 1, n \div 2, n - 1, n}, k \in {1, 3, n} } : x[2][1] + x[2][2] <= 2 * n }
  \cup { <<"split", <<k>>>> : k \in { d \in {2, 4} : Divides(d, n) } } \cup (IF n >= 3 THEN {<<"split", <<1>>>>} ELSE {})
  \cup UNION { { <<"part", <<d, k>>>> : k \in {0, d - 1} } : d \in { d \in {2, 3, 4} : Divides(d, n) } }
  \cup { x \in { <<op, <<s, k, m>>>> : op \in {"cas", "sac"}, s \in {0, 1, n \div 2}, k \in {1, n}, m \in {1, (n + 1) \div 2, n} } : x[2][1] + x[2][2] <= n + x[2][3] }
  \cup { <<op, <<g>>>> : op \in {"even", "odd", "interleavehalves", "splitpairs"}, g \in { g \in {1, 2, 4} : Divides(2 * g, n) } }
  \cup { <<op, <<g>>>> : op \in {"interleave", "reverse"}, g \in Gs(n) }
  \cup { x \in { <<"permute", q>> : q \in {<<1, 0>>, <<0, 0>>, <<2, 0, 1>>, <<3, 2, 1, 0>>, <<0, 2, 1, 3>>, <<1, 1, 3, 2>>, <<0, 4, 1, 5, 2, 6, 3, 7>>} } : Divides(Len(x[2]), n) }
  \cup { x \in { <<"permutegroups", q>> : q \in {<<2, 1, 0>>, <<4, 1, 0>>, <<2, 3, 0, 2, 1>>, <<4, 0, 2, 1, 3>>, <<8, 0, 2, 1, 3>>} } : Divides(x[2][1] * (Len(x[2]) - 1), n) }
  \cup (IF EvenN(n) THEN { <<"shuffle", q>> : q \in {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>} } ELSE {})
  \cup (IF Divides(4, n) THEN { <<"shufflegroups", q>> : q \in {<<2, 0, 1>>, <<2, 1, 0>>} } ELSE {})
  \cup { <<"blend", q>> : q \in {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<1, 1, 0>>, <<0, 0, 1, 1>>} }
  \cup { <<"swap", <<k>>>> : k \in { k \in {2, 4, 8} : Divides(k, n) } }
  \cup { <<"rotatetwo", <<k>>>> : k \in {0, 1, n \div 2, n - 1, n} } \cup { <<op, <<k>>>> : op \in {"rotateright", "rotateleft"}, k \in {0, 1 % n, n \div 2, n - 1} }
  \cup UNION { { <<op, <<c, g>>>> : op \in {"transpose", "transposeinverse"}, c \in { c \in {2, 3, 4, 8} : Divides(c * g, n) } } : g \in {1, 2} }
  \cup UNION { { <<"column", <<c, k>>>> : k \in {0, c - 1} } : c \in { c \in {2, 3, 4} : Divides(c, n) } }
  \cup { <<"combine", <<k>>>> : k \in {1, (n + 1) \div 2, n} } \cup { <<"set", <<k>>>> : k \in {0, n \div 2, n - 1} }
  \cup { x \in { <<"bitreverse", <<g>>>> : g \in {1, 2} } : Divides(x[2][1], n) /\ 2 ^ Log2(n \div x[2][1]) = n \div x[2][1] }
  \cup { x \in { <<"digitreverse4", <<g>>>> : g \in {1, 2} } : Divides(x[2][1], n) /\ 4 ^ (Log2(n \div x[2][1]) \div 2) = n \div x[2][1] }

\* what a rearrangement of x and y gives, e being the additional value
Source(s, x, y, e) == CASE s = Free -> Free [] s = Extra -> e [] s < Len(x) -> x[s + 1] [] OTHER -> y[(s - Len(x)) + 1]
PermOf(op, p, x, y, e) == LET q == Perm(op, p, Len(x)) IN [i \in 1..Len(q) |-> Source(q[i], x, y, e)]
AgreesWith(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(got) : want[i] = Free \/ got[i] = want[i]

\* ---------------------------------------------------------------- integers as bytes
W(a) == Len(a)
ZeroB(k) == [i \in 1..k |-> 0]
OneB(k) == [i \in 1..k |-> IF i = 1 THEN 1 ELSE 0]
OnesB(k) == [i \in 1..k |-> 255]
RECURSIVE AddCarry(_, _, _, _)
AddCarry(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET t == a[i] + b[i] + c IN <<t % 256>> \o AddCarry(a, b, i + 1, t \div 256)
RECURSIVE CarryOut(_, _, _, _)
CarryOut(a, b, i, c) == IF i > Len(a) THEN c ELSE CarryOut(a, b, i + 1, (a[i] + b[i] + c) \div 256)
NotB(a) == [i \in 1..Len(a) |-> 255 - a[i]]
AddB(a, b) == AddCarry(a, b, 1, 0)
SubB(a, b) == AddCarry(a, NotB(b), 1, 1)
NegB(a) == SubB(ZeroB(Len(a)), a)
AndB(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
OrB(a, b) == [i \in 1..Len(a) |-> a[i] | b[i]]
XorB(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
TopB(a) == a[Len(a)] >= 128
\* unsigned order, from the top byte down
RECURSIVE Below(_, _, _)
Below(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Below(a, b, i - 1)
LessB(a, b, sg) == IF sg /\ TopB(a) # TopB(b) THEN TopB(a) ELSE Below(a, b, Len(a))
\* product of bytes: the carry into byte i and the byte
RECURSIVE MulFrom(_, _, _, _)
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k - i + 1] + Col(a, b, k, i + 1)
MulFrom(a, b, k, c) == IF k > Len(a) THEN <<>> ELSE LET t == Col(a, b, k, 1) + c IN <<t % 256>> \o MulFrom(a, b, k + 1, t \div 256)
MulB(a, b) == MulFrom(a, b, 1, 0)
ByteAt(a, i, fill) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE IF i < 1 THEN 0 ELSE fill
ShlB(a, k) == [i \in 1..Len(a) |-> LET w == k \div 8  r == k % 8 IN ((ByteAt(a, i - w, 0) * 2 ^ r) % 256) + (ByteAt(a, i - w - 1, 0) \div 2 ^ (8 - r))]
ShrB(a, k, sg) == LET f == IF sg /\ TopB(a) THEN 255 ELSE 0 IN
  [i \in 1..Len(a) |-> LET w == k \div 8  r == k % 8 IN (ByteAt(a, i + w, f) \div 2 ^ r) + ((ByteAt(a, i + w + 1, f) * 2 ^ (8 - r)) % 256)]
RolB(a, k) == IF k = 0 THEN a ELSE OrB(ShlB(a, k), ShrB(a, 8 * Len(a) - k, FALSE))
MaxOf(k, sg) == IF sg THEN [i \in 1..k |-> IF i = k THEN 127 ELSE 255] ELSE OnesB(k)
MinOf(k, sg) == IF sg THEN [i \in 1..k |-> IF i = k THEN 128 ELSE 0] ELSE ZeroB(k)
\* saturating: when the exact result does not fit, the nearest bound
SatAdd(a, b, sg) == IF sg THEN (LET s == AddB(a, b) IN IF TopB(a) = TopB(b) /\ TopB(s) # TopB(a) THEN (IF TopB(a) THEN MinOf(Len(a), TRUE) ELSE MaxOf(Len(a), TRUE)) ELSE s)
                    ELSE IF CarryOut(a, b, 1, 0) = 1 THEN OnesB(Len(a)) ELSE AddB(a, b)
SatSub(a, b, sg) == IF sg THEN (LET s == SubB(a, b) IN IF TopB(a) # TopB(b) /\ TopB(s) # TopB(a) THEN (IF TopB(a) THEN MinOf(Len(a), TRUE) ELSE MaxOf(Len(a), TRUE)) ELSE s)
                    ELSE IF LessB(a, b, FALSE) THEN ZeroB(Len(a)) ELSE SubB(a, b)
MinB(a, b, sg) == IF LessB(b, a, sg) THEN b ELSE a
MaxB(a, b, sg) == IF LessB(a, b, sg) THEN b ELSE a
AbsB(a, sg) == IF sg /\ TopB(a) THEN NegB(a) ELSE a
RECURSIVE DivStep(_, _, _, _, _)
\* long division of unsigned a by b, bit by bit: <<quotient, remainder>>
DivStep(a, b, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET r1 == AddB(ShlB(r, 1), [j \in 1..Len(a) |-> IF j = 1 THEN (a[(i \div 8) + 1] \div 2 ^ (i % 8)) % 2 ELSE 0])
           fits == ~LessB(r1, b, FALSE) IN
       DivStep(a, b, i - 1, IF fits THEN OrB(q, ShlB(OneB(Len(a)), i)) ELSE q, IF fits THEN SubB(r1, b) ELSE r1)
DivU(a, b) == DivStep(a, b, 8 * Len(a) - 1, ZeroB(Len(a)), ZeroB(Len(a)))
\* towards zero; the divisor is positive here
DivB(a, b, sg) == LET d == DivU(AbsB(a, sg), b) IN IF sg /\ TopB(a) THEN NegB(d[1]) ELSE d[1]
ModB(a, b, sg) == LET d == DivU(AbsB(a, sg), b) IN IF sg /\ TopB(a) THEN NegB(d[2]) ELSE d[2]
Divisor(b) == OrB(ShrB(b, 1, FALSE), OneB(Len(b)))
CastB(a, k, sg) == [i \in 1..k |-> ByteAt(a, i, IF sg /\ TopB(a) THEN 255 ELSE 0)]
Map1(x, F(_)) == [i \in 1..Len(x) |-> F(x[i])]
Map2(x, y, F(_, _)) == [i \in 1..Len(x) |-> F(x[i], y[i])]
Fold(x, F(_, _)) == FoldLeft(F, Head(x), Tail(x))
Count(v, s) == Len(SelectSeq(s, LAMBDA z : z = v))
\* sorted ascending by less, and the same lanes
SortedBy(x, r, Less(_, _)) == Len(r) = Len(x) /\ (\A i \in 1..Len(r) - 1 : ~Less(r[i + 1], r[i])) /\ \A i \in 1..Len(x) : Count(x[i], x) = Count(x[i], r)
Truth(b) == IF b THEN 1 ELSE 0
Compare(op, less, eq, gr) == CASE op = "eq" -> eq [] op = "ne" -> ~eq [] op = "lt" -> less [] op = "gt" -> gr [] op = "le" -> less \/ eq [] OTHER -> gr \/ eq
IsCmp(op) == op \in {"eq", "ne", "lt", "gt", "le", "ge"}

\* x, y, z: lanes; k: a bit count; c: the comparison used
IntOp(op, c, sg, k, x, y, z) ==
  LET Cmp(a, b) == Compare(c, LessB(a, b, sg), a = b, LessB(b, a, sg)) IN
  CASE op = "add" -> Map2(x, y, AddB) [] op = "sub" -> Map2(x, y, SubB) [] op = "mul" -> Map2(x, y, MulB)
    [] op = "div" -> Map2(x, y, LAMBDA a, b : DivB(a, Divisor(b), sg)) [] op = "mod" -> Map2(x, y, LAMBDA a, b : ModB(a, Divisor(b), sg))
    [] op = "and" -> Map2(x, y, AndB) [] op = "or" -> Map2(x, y, OrB) [] op = "xor" -> Map2(x, y, XorB)
    [] op = "andnot" -> Map2(x, y, LAMBDA a, b : AndB(a, NotB(b))) [] op = "not" -> Map1(x, NotB) [] op = "neg" -> Map1(x, NegB)
    [] op = "shl" -> Map1(x, LAMBDA a : ShlB(a, k)) [] op = "shr" -> Map1(x, LAMBDA a : ShrB(a, k, sg))
    [] op = "shlv" -> Map2(x, y, LAMBDA a, b : ShlB(a, b[1] % (8 * Len(a)))) [] op = "shrv" -> Map2(x, y, LAMBDA a, b : ShrB(a, b[1] % (8 * Len(a)), sg))
    [] op = "rol" -> Map1(x, LAMBDA a : RolB(a, k)) [] op = "ror" -> Map1(x, LAMBDA a : RolB(a, (8 * Len(a) - k) % (8 * Len(a))))
    [] op = "min" -> Map2(x, y, LAMBDA a, b : MinB(a, b, sg)) [] op = "max" -> Map2(x, y, LAMBDA a, b : MaxB(a, b, sg))
    [] op = "absmin" -> Map2(x, y, LAMBDA a, b : MinB(AbsB(a, sg), AbsB(b, sg), sg)) [] op = "absmax" -> Map2(x, y, LAMBDA a, b : MaxB(AbsB(a, sg), AbsB(b, sg), sg))
    [] op = "abs" -> Map1(x, LAMBDA a : AbsB(a, sg))
    [] op = "clamp" -> [i \in 1..Len(x) |-> LET lo == MinB(y[i], z[i], sg)  hi == MaxB(y[i], z[i], sg) IN MaxB(MinB(x[i], hi, sg), lo, sg)]
    [] op = "satadd" -> Map2(x, y, LAMBDA a, b : SatAdd(a, b, sg)) [] op = "satsub" -> Map2(x, y, LAMBDA a, b : SatSub(a, b, sg))
    [] op = "mask" -> Map2(x, y, LAMBDA a, b : Truth(Cmp(a, b)))
    [] op = "maskops" -> LET m == Map2(x, y, Cmp)  w == Map2(y, z, Cmp) IN Map2(m, w, LAMBDA a, b : Truth(a /\ b) + 2 * Truth(a \/ b) + 4 * Truth(a # b) + 8 * Truth(~a))
    [] op = "all" -> <<Truth(\A i \in 1..Len(x) : Cmp(x[i], y[i]))>> [] op = "any" -> <<Truth(\E i \in 1..Len(x) : Cmp(x[i], y[i]))>>
    [] op = "select" -> [i \in 1..Len(x) |-> IF Cmp(x[i], y[i]) THEN z[i] ELSE x[i]]
    [] op = "hadd" -> <<Fold(x, AddB)>> [] op = "hmul" -> <<Fold(x, MulB)>> [] op = "hand" -> <<Fold(x, AndB)>> [] op = "hor" -> <<Fold(x, OrB)>> [] op = "hxor" -> <<Fold(x, XorB)>>
    [] op = "hmin" -> <<Fold(x, LAMBDA a, b : MinB(a, b, sg))>> [] op = "hmax" -> <<Fold(x, LAMBDA a, b : MaxB(a, b, sg))>>
    [] op = "hdot" -> <<Fold(Map2(x, y, MulB), AddB)>>
    [] op = "cast" -> Map1(x, LAMBDA a : CastB(a, k, sg))
    [] op = "addeach" -> [i \in 1..Len(x) |-> AddB(x[i], y[1])]           \* a vector and a single value
    [] op = "fmadd" -> [i \in 1..Len(x) |-> AddB(MulB(x[i], y[i]), z[i])]
    [] op = "swapbytes" -> Map1(x, LAMBDA a : [i \in 1..Len(a) |-> a[Len(a) + 1 - i]])
    [] op = "addsub" -> [i \in 1..Len(x) |-> IF i % 2 = 1 THEN AddB(x[i], y[i]) ELSE SubB(x[i], y[i])]
    [] op = "subadd" -> [i \in 1..Len(x) |-> IF i % 2 = 0 THEN AddB(x[i], y[i]) ELSE SubB(x[i], y[i])]
    [] op = "bitcast" -> x
    [] op = "partialmask" -> Gen(Len(x), LAMBDA i : IF i < k THEN OnesB(Len(x[1])) ELSE ZeroB(Len(x[1])))
IntNames == {"add", "sub", "mul", "div", "mod", "and", "or", "xor", "andnot", "not", "neg", "shl", "shr", "shlv", "shrv", "rol", "ror", "min", "max", "absmin", "absmax", "abs", "clamp",
             "satadd", "satsub", "mask", "maskops", "all", "any", "select", "hadd", "hmul", "hand", "hor", "hxor", "hmin", "hmax", "hdot", "cast", "addeach", "fmadd", "swapbytes", "addsub", "subadd", "bitcast", "partialmask", "sort", "sortdesc"}
Pow2(n) == 2 ^ Log2(n) = n
IntOps(n, sg) == { op \in IntNames : /\ (op \in {"sort", "sortdesc"} => n >= 4 /\ Pow2(n)) /\ (op \in {"rol", "ror"} => ~sg) /\ (op \in {"addsub", "subadd"} => n >= 2) /\ (op \in {"div", "mod"} => n <= 8) /\ (op = "partialmask" => n <= 32) }

\* ---------------------------------------------------------------- floating point numbers, in sixteenths
NaN == 2000000002
PInf == 1000000001
NInf == -1000000001
NZero == 1000000002     \* minus zero
Plain(a) == IF a = NZero THEN 0 ELSE a
LtF(a, b) == a # NaN /\ b # NaN /\ Plain(a) < Plain(b)
EqF(a, b) == a # NaN /\ b # NaN /\ Plain(a) = Plain(b)
Neg1(a) == a < 0 \/ a = NZero
MagF(a) == IF a = NZero THEN 0 ELSE IF a < 0 THEN -a ELSE a
FloorF(a) == 16 * (a \div 16)
TruncF(a) == IF a < 0 THEN 16 * (-((-a) \div 16)) ELSE FloorF(a)
RoundF(a) == FloorF(a + 8)      \* not used at exact halves
CeilF(a) == 16 * (-((-a) \div 16))
MinF(a, b) == IF b < a THEN b ELSE a
MaxF(a, b) == IF a < b THEN b ELSE a
ModF(a, b) == LET m == MagF(a) % MagF(b) IN IF a < 0 THEN -m ELSE m
WithSign(a, b) == IF Neg1(b) THEN -MagF(a) ELSE MagF(a)
NonZero(b) == IF b = 0 THEN 12 ELSE b
FltOp(op, c, x, y, z) ==
  LET Cmp(a, b) == Compare(c, LtF(a, b), EqF(a, b), LtF(b, a)) IN
  CASE op = "add" -> Map2(x, y, LAMBDA a, b : a + b) [] op = "sub" -> Map2(x, y, LAMBDA a, b : a - b) [] op = "mul" -> Map2(x, y, LAMBDA a, b : (a * b) \div 16)
    [] op = "neg" -> Map1(x, LAMBDA a : -a) [] op = "abs" -> Map1(x, MagF)
    [] op = "min" -> Map2(x, y, MinF) [] op = "max" -> Map2(x, y, MaxF)
    [] op = "absmin" -> Map2(x, y, LAMBDA a, b : MinF(MagF(a), MagF(b))) [] op = "absmax" -> Map2(x, y, LAMBDA a, b : MaxF(MagF(a), MagF(b)))
    [] op = "clamp" -> [i \in 1..Len(x) |-> MaxF(MinF(x[i], MaxF(y[i], z[i])), MinF(y[i], z[i]))]
    [] op = "floor" -> Map1(x, FloorF) [] op = "ceil" -> Map1(x, CeilF) [] op = "trunc" -> Map1(x, TruncF) [] op = "fract" -> Map1(x, LAMBDA a : a - FloorF(a))
    [] op = "round" -> Map1(x, LAMBDA a : RoundF(a + Truth(a % 16 = 8)))
    [] op = "ifloor" -> Map1(x, LAMBDA a : FloorF(a) \div 16) [] op = "iceil" -> Map1(x, LAMBDA a : CeilF(a) \div 16) [] op = "itrunc" -> Map1(x, LAMBDA a : TruncF(a) \div 16)
    [] op = "fmod" -> Map2(x, y, LAMBDA a, b : ModF(a, NonZero(b)))
    [] op = "mask" -> Map2(x, y, LAMBDA a, b : Truth(Cmp(a, b)))
    [] op = "all" -> <<Truth(\A i \in 1..Len(x) : Cmp(x[i], y[i]))>> [] op = "any" -> <<Truth(\E i \in 1..Len(x) : Cmp(x[i], y[i]))>>
    [] op = "select" -> [i \in 1..Len(x) |-> IF Cmp(x[i], y[i]) THEN Plain(z[i]) ELSE Plain(x[i])]
    [] op = "classes" -> Map1(x, LAMBDA a : Truth(a = NaN) + 2 * Truth(a \in {PInf, NInf}) + 4 * Truth(a \notin {NaN, PInf, NInf}) + 16 * Truth(Plain(a) = 0) + (IF a = NaN THEN 0 ELSE 8 * Truth(Neg1(a)) + 32 * Truth(~Neg1(a))))
    [] op = "hadd" -> <<Fold(x, LAMBDA a, b : a + b)>> [] op = "hmin" -> <<Fold(x, MinF)>> [] op = "hmax" -> <<Fold(x, MaxF)>>
    [] op = "hmul" -> <<Fold(x, LAMBDA a, b : (a * b) \div 16)>>
    [] op = "hdot" -> <<Fold(Map2(x, y, LAMBDA a, b : (a * b) \div 16), LAMBDA a, b : a + b)>>
    [] op = "havg" -> <<Fold(x, LAMBDA a, b : a + b)>>                     \* times the number of lanes
    [] op = "fmadd" -> [i \in 1..Len(x) |-> (x[i] * y[i]) \div 16 + z[i]]
    [] op = "mulsign" -> Map2(x, y, LAMBDA a, b : IF Neg1(b) THEN -a ELSE a) [] op = "copysign" -> Map2(x, y, WithSign)
    [] op = "negeven" -> [i \in 1..Len(x) |-> IF i % 2 = 1 THEN -x[i] ELSE x[i]] [] op = "negodd" -> [i \in 1..Len(x) |-> IF i % 2 = 0 THEN -x[i] ELSE x[i]]
    [] op = "addsub" -> [i \in 1..Len(x) |-> IF i % 2 = 1 THEN x[i] + y[i] ELSE x[i] - y[i]] [] op = "subadd" -> [i \in 1..Len(x) |-> IF i % 2 = 0 THEN x[i] + y[i] ELSE x[i] - y[i]]
    [] op = "toint" -> Map1(x, LAMBDA a : TruncF(a) \div 16)               \* to integers, towards zero
    [] op = "fromint" -> Map1(x, LAMBDA a : TruncF(a))                     \* from those integers
    [] op = "enumerate" -> Gen(Len(x), LAMBDA i : 16 * i) [] op = "enumerate2" -> Gen(Len(x), LAMBDA i : 16 * (5 + 3 * i))
    [] op = "steps" -> Gen(Len(x), LAMBDA i : i * x[1])
    [] op = "onoff" -> Gen(Len(x), LAMBDA i : 16 * Truth(i = 0)) [] op = "horner" -> Map1(x, LAMBDA a : 16 * 3 + 2 * a + ((a * a) \div 16))
FltPlain == {"add", "sub", "mul", "neg", "abs", "min", "max", "absmin", "absmax", "clamp", "floor", "ceil", "trunc", "round", "fract", "ifloor", "iceil", "itrunc", "fmod", "hadd", "hmin", "hmax", "hmul", "hdot", "havg",
             "fmadd", "mulsign", "copysign", "negeven", "negodd", "addsub", "subadd", "toint", "fromint", "enumerate", "enumerate2", "steps", "onoff", "horner", "sort", "sortdesc"}
FltSpecial == {"mask", "all", "any", "select", "classes"}
FltOps(n) == { op \in FltPlain \cup FltSpecial : /\ (op \in {"sort", "sortdesc"} => n >= 4 /\ Pow2(n)) /\ (op \in {"addsub", "subadd"} => n >= 2) /\ (op = "hmul" => n <= 3) /\ (op = "havg" => Pow2(n)) }

\* ---------------------------------------------------------------- memory
VARIABLE m      \* the memory: a sequence of elements
\* elements at positions (0-based)
Take(s) == [i \in 1..Len(s) |-> m[s[i] + 1]]
Stored(s, val) == [j \in 1..Len(m) |-> IF \E i \in 1..Len(s) : s[i] = j - 1 THEN val[CHOOSE i \in 1..Len(s) : s[i] = j - 1] ELSE m[j]]
\* positions meant by an access of n lanes in groups of g
Places(op, off, n, g, stride, idx) ==
  CASE op \in {"read", "write", "ctor", "member"} -> Range0(off, n)
    [] op \in {"aread", "awrite"} -> Id(n)
    [] op \in {"gather", "scatter"} -> Gen(n * g, LAMBDA i : off + g * idx[(i \div g) + 1] + (i % g))
    [] op \in {"gstride", "sstride"} -> Gen(n * g, LAMBDA i : off + g * stride * (i \div g) + (i % g))
    [] op \in {"gfix"} -> Gen(n, LAMBDA i : off + 3 * i)
    [] op \in {"rgroup", "wgroup"} -> Gen(2 * n * g, LAMBDA i : off + g * stride * (i \div (n * g)) + (i % (n * g)))
Store(op, s, val) == IF op \in {"write", "awrite", "member", "scatter", "sstride", "wgroup"} THEN m' = Stored(s, val) ELSE UNCHANGED m
=============================================================================
