------------------------------- MODULE Shape --------------------------------
(* Shapes: sequences of extents, the last axis varying fastest.  Inf stands   *)
(* for an unbounded extent.  An index is a sequence of positions.             *)
EXTENDS Integers, Sequences, FiniteSets
Inf == 1000000
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Const(n, x) == [i \in 1..n |-> x]

(* ---- storage order ---- *)
Indices(sh) == {ix \in [1..Len(sh) -> 0..MaxI(0, 8)] : \A i \in 1..Len(sh) : ix[i] < sh[i]}
Weight(sh, i) == Prod(SubSeq(sh, i + 1, Len(sh)))
RECURSIVE SumW(_, _, _)
SumW(sh, ix, i) == IF i > Len(sh) THEN 0 ELSE ix[i] * Weight(sh, i) + SumW(sh, ix, i + 1)
ToFlat(sh, ix) == SumW(sh, ix, 1)
FromFlat(sh, k) == [i \in 1..Len(sh) |-> (k \div Weight(sh, i)) % sh[i]]
StridesC(sh, unit) == [i \in 1..Len(sh) |-> unit * Weight(sh, i)]
StridesF(sh, unit) == [i \in 1..Len(sh) |-> unit * Prod(SubSeq(sh, 1, i - 1))]

(* ---- iteration over the box start..stop-1, last axis fastest ---- *)
LexLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
\* the position that follows cur, or <<>> when cur is the last one; axes after dim do not move
RECURSIVE Succ(_, _, _, _)
Succ(cur, start, stop, dim) ==
  IF dim = 0 THEN <<>>
  ELSE IF cur[dim] + 1 < stop[dim] THEN [cur EXCEPT ![dim] = @ + 1]
  ELSE Succ([cur EXCEPT ![dim] = start[dim]], start, stop, dim - 1)
Box(start, stop) == [i \in 1..Len(start) |-> stop[i] - start[i]]

(* ---- broadcasting ---- *)
Ext(s, i) == IF i <= Len(s) THEN s[Len(s) + 1 - i] ELSE 1     \* i-th extent from the end
Rank(S) == LET L == {Len(S[j]) : j \in DOMAIN S} IN CHOOSE m \in L : \A x \in L : x <= m
Exts(S, i) == {Ext(S[j], i) : j \in DOMAIN S}
Firm(S, i) == {x \in Exts(S, i) : x # 1 /\ x # Inf /\ x # 0}
Conflict(S, i) == Cardinality(Firm(S, i)) > 1
Undef(S, i) == 0 \in Exts(S, i)
\* all the arguments at once
CommonAll(S) ==
  LET r == Rank(S) IN
  IF \E i \in 1..r : Conflict(S, i) /\ ~Undef(S, i) THEN Const(r, 0)
  ELSE [k \in 1..r |-> LET i == r + 1 - k IN
        IF Undef(S, i) THEN 0
        ELSE IF Firm(S, i) # {} THEN CHOOSE x \in Firm(S, i) : TRUE
        ELSE IF Inf \in Exts(S, i) THEN Inf ELSE 1]
\* incompatible shapes have an undefined extent in their combination; which ones depends on the grouping
Clean(S) == \A i \in 1..Rank(S) : ~Conflict(S, i)
HasZero(s) == \E i \in 1..Len(s) : s[i] = 0
CombinationOk(S, r) == IF Clean(S) THEN r = CommonAll(S) ELSE Len(r) = Rank(S) /\ HasZero(r)
Common(a, b) == CommonAll(<<a, b>>)
CanAssign(dst, src) == Len(src) = 0 \/ \A i \in 1..MaxI(Len(dst), Len(src)) : Ext(src, i) \in {1, Inf, Ext(dst, i)} \/ Ext(dst, i) = Inf
\* position of a broadcast argument for an index of the result
Proj(sh, ix) == [k \in 1..Len(sh) |-> IF sh[k] = 1 THEN 0 ELSE ix[Len(ix) - Len(sh) + k]]
SameLayout(a, b) == SelectSeq(a, LAMBDA x : x # 1) = SelectSeq(b, LAMBDA x : x # 1)

(* ---- axis by axis ---- *)
RotL(s) == IF Len(s) < 2 THEN s ELSE Tail(s) \o <<s[1]>>
RotR(s) == IF Len(s) < 2 THEN s ELSE <<s[Len(s)]>> \o SubSeq(s, 1, Len(s) - 1)
AddInf(x, y) == IF x = Inf \/ y = Inf THEN Inf ELSE x + y
SubInf(x, y) == IF x = Inf \/ y = Inf THEN Inf ELSE x - y
Zip(F(_, _), a, b) == [i \in 1..Len(a) |-> F(a[i], b[i])]
Trailing(s) == LET nz == {i \in 1..Len(s) : Ext(s, i) # 0} IN IF nz = {} THEN Len(s) ELSE (CHOOSE m \in nz : \A x \in nz : m <= x) - 1
=============================================================================
