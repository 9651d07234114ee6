------------------------------- MODULE MCVec ---------------------------------
(* The algorithms behind the operations, as machines that refine what Vec says:*)
(*  sort:   odd-even exchange of two half vectors, all 0/1 inputs             *)
(*  reduce: halving a vector padded with the neutral value                    *)
(*  sat:    saturating addition from the wrapped sum and signs, all bytes     *)
(*  store:  a store split in a low and a high part                            *)
EXTENDS Vec, FiniteSets, TLC
CONSTANTS SortLens, MaxReduce
VARIABLES s      \* the machine
vars == <<s, m>>
Bits01(n) == [1..n -> {0, 1}]
Min2(a, b) == IF b < a THEN b ELSE a
Max2(a, b) == IF b > a THEN b ELSE a
Zip2(e, o, F(_, _)) == [i \in 1..Len(e) |-> F(e[i], o[i])]
Rot(v, k) == [i \in 1..Len(v) |-> v[((i - 1 + k) % Len(v)) + 1]]
First(a, b) == [i \in 1..Len(a) |-> IF i = 1 THEN b[i] ELSE a[i]]
Woven(e, o) == [i \in 1..2 * Len(e) |-> IF i % 2 = 1 THEN e[(i + 1) \div 2] ELSE o[i \div 2]]
SortStep == /\ s.kind = "sort" /\ s.i < Len(s.e)
            /\ LET e1 == Zip2(s.e, s.o, Min2)  o1 == Rot(Zip2(s.e, s.o, Max2), Len(s.e) - 1)
                   e2 == Zip2(e1, o1, Max2)  o2 == Zip2(e1, o1, Min2) IN
               s' = [s EXCEPT !.e = First(e2, o2), !.o = Rot(First(o2, e2), 1), !.i = @ + 1]
            /\ UNCHANGED m
\* reductions of bytes
Reds == {"add", "and", "or", "min", "max"}
RedOp(r, a, b) == CASE r = "add" -> (a + b) % 256 [] r = "and" -> a & b [] r = "or" -> a | b [] r = "min" -> Min2(a, b) [] OTHER -> Max2(a, b)
Neutral(r) == CASE r \in {"add", "or", "max"} -> 0 [] OTHER -> 255
FoldBy(r, x) == FoldLeft(LAMBDA a, b : RedOp(r, a, b), Head(x), Tail(x))
PadTo(x, n, d) == [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE d]
NextPow2(n) == IF PrevPow2(n) = n THEN n ELSE 2 * PrevPow2(n)
ReduceStep == /\ s.kind = "reduce" /\ Len(s.cur) > 1 /\ UNCHANGED m
              /\ s' = IF Pow2(Len(s.cur)) THEN LET h == Len(s.cur) \div 2 IN [s EXCEPT !.cur = [i \in 1..h |-> RedOp(s.r, s.cur[i], s.cur[i + h])]]
                      ELSE [s EXCEPT !.cur = PadTo(s.cur, NextPow2(Len(s.cur)), Neutral(s.r))]
\* saturating addition: the bound on the side of a when the signs say that the sum wrapped
Clamped(a, b, sum) == IF TopB(a) THEN MinOf(Len(a), TRUE) ELSE MaxOf(Len(a), TRUE)
SatBits(a, b) == LET sum == AddB(a, b) bound == Clamped(a, b, sum)
                     fits == TopB(OrB(XorB(a, b), NotB(XorB(b, sum)))) IN IF fits THEN sum ELSE bound
ToInt(a, sg) == FoldRight(LAMBDA d, t : d + 256 * t, a, 0) - (IF sg /\ TopB(a) THEN 256 ^ Len(a) ELSE 0)
RECURSIVE ToBytes(_, _)
ToBytes(v, w) == IF w = 0 THEN <<>> ELSE <<v % 256>> \o ToBytes(v \div 256, w - 1)
Limit(v, w, sg) == LET lo == IF sg THEN -(256 ^ w \div 2) ELSE 0  hi == IF sg THEN (256 ^ w \div 2) - 1 ELSE 256 ^ w - 1 IN Max2(lo, Min2(hi, v))
SatStep == s.kind = "sat" /\ s.b < 255 /\ s' = [s EXCEPT !.b = @ + 1] /\ UNCHANGED m
\* a store in two parts
StoreStep == /\ s.kind = "store" /\ s.i < 2
             /\ LET h == IF Len(s.val) = 1 THEN 1 ELSE PrevPow2(Len(s.val) - 1)
                    part == IF s.i = 0 THEN SubSeq(s.val, 1, h) ELSE SubSeq(s.val, h + 1, Len(s.val))
                    at == s.off + (IF s.i = 0 THEN 0 ELSE h * s.stride) IN
                m' = Stored(Gen(Len(part), LAMBDA i : at + i * s.stride), part)
             /\ s' = [s EXCEPT !.i = @ + 1]
Mem0 == [i \in 1..12 |-> i]
Init == \/ \E n \in SortLens : \E x \in Bits01(n) : s = [kind |-> "sort", x |-> x, e |-> SubSeq(x, 1, n \div 2), o |-> SubSeq(x, n \div 2 + 1, n), i |-> 0] /\ m = <<>>
        \/ \E r \in Reds, n \in 1..MaxReduce : \E x \in [1..n -> {3, 200, 77}] : s = [kind |-> "reduce", r |-> r, x |-> x, cur |-> x] /\ m = <<>>
        \/ \E a \in 0..255 : s = [kind |-> "sat", a |-> a, b |-> 0] /\ m = <<>>
        \/ \E n \in 1..5, off \in 0..3, st \in 1..2 : off + (n - 1) * st < 12 /\ s = [kind |-> "store", val |-> [i \in 1..n |-> 100 + i], off |-> off, stride |-> st, i |-> 0] /\ m = Mem0
Next == SortStep \/ ReduceStep \/ SatStep \/ StoreStep
Spec == Init /\ [][Next]_vars
Sorted == s.kind = "sort" /\ s.i = Len(s.e) => SortedBy(s.x, Woven(s.e, s.o), LAMBDA a, b : a < b)
Kept == s.kind = "sort" => Count(1, s.x) = Count(1, s.e \o s.o)
Reduced == s.kind = "reduce" => FoldBy(s.r, s.cur) = FoldBy(s.r, s.x)
Saturates == s.kind = "sat" => LET a == <<s.a>>  b == <<s.b>> IN
     /\ SatBits(a, b) = SatAdd(a, b, TRUE)
     /\ \A sg \in BOOLEAN : LET u == ToInt(a, sg)  v == ToInt(b, sg) IN
          /\ ToInt(SatAdd(a, b, sg), sg) = Limit(u + v, 1, sg) /\ ToInt(SatSub(a, b, sg), sg) = Limit(u - v, 1, sg)
          /\ AddB(a, b) = ToBytes((u + v) % 256, 1) /\ SubB(a, b) = ToBytes((u - v) % 256, 1) /\ MulB(a, b) = ToBytes((u * v) % 256, 1)
          /\ LessB(a, b, sg) = (u < v)
     /\ LET d == Divisor(b) IN ToInt(DivB(a, d, FALSE), FALSE) = s.a \div ToInt(d, FALSE) /\ ToInt(ModB(a, d, FALSE), FALSE) = s.a % ToInt(d, FALSE)
     \* two bytes
     /\ LET x == <<s.a, s.b>>  y == <<s.b, 255 - s.a>> IN \A sg \in BOOLEAN : LET u == ToInt(x, sg)  v == ToInt(y, sg) IN
          /\ ToInt(SatAdd(x, y, sg), sg) = Limit(u + v, 2, sg) /\ ToInt(SatSub(x, y, sg), sg) = Limit(u - v, 2, sg)
          /\ LessB(x, y, sg) = (u < v) /\ SatBits(x, y) = SatAdd(x, y, TRUE)
          /\ \A k \in {0, 1, 7, 8, 11, 15} : ToInt(ShrB(x, k, sg), sg) = u \div 2 ^ k /\ ToInt(RolB(x, k), FALSE) = ((ToInt(x, FALSE) * 2 ^ k) % 65536) + (ToInt(x, FALSE) \div 2 ^ (16 - k))
SplitStore == s.kind = "store" /\ s.i = 2 => m = [j \in 1..12 |-> IF \E i \in 1..Len(s.val) : s.off + (i - 1) * s.stride = j - 1 THEN 100 + (CHOOSE i \in 1..Len(s.val) : s.off + (i - 1) * s.stride = j - 1) ELSE j]
\* broken: the value itself in place of the bound
ClampedSelf(a, b, sum) == a
\* rearrangements: inverse pairs and permutations
IsPermutation(q, n) == Len(q) = n /\ { q[i] : i \in 1..n } = 0..(n - 1)
After(p, q) == [i \in 1..Len(p) |-> q[p[i] + 1]]
ASSUME \A n \in {2, 4, 8, 16, 32} : \A g \in {1, 2} :
   /\ \A c \in {2, 4} : n % (c * g) = 0 => After(Perm("transposeinverse", <<c, g>>, n), Perm("transpose", <<c, g>>, n)) = Id(n)
   /\ n % g = 0 => /\ After(Perm("reverse", <<g>>, n), Perm("reverse", <<g>>, n)) = Id(n) /\ After(Perm("bitreverse", <<g>>, n), Perm("bitreverse", <<g>>, n)) = Id(n)
   /\ n % (2 * g) = 0 => After(Perm("splitpairs", <<g>>, n), Perm("interleavehalves", <<g>>, n)) = Id(n)
   /\ After(Perm("rotateleft", <<1>>, n), Perm("rotateright", <<1>>, n)) = Id(n)
ASSUME \A n \in {4, 5, 8, 12} : \A o \in PermOps(n) : Len(Perm(o[1], o[2], n)) > 0
=============================================================================
