------------------------------ MODULE MCTensor ------------------------------
EXTENDS Tensor
CONSTANTS MaxSt, NSlots, MaxOps
VARIABLE n
vars == <<mem, freed, slot, n>>
Shapes == {<<3>>, <<2, 2>>, <<1, 3>>}
\* open ended and negative bounds, both directions, a dropped axis
Items == {<<0, 0>>, <<0, -1>>, <<1, 1, 1, 0, 0, 0, 0>>, <<1, 0, 0, 0, 0, 1, -1>>, <<1, 1, -1, 1, 0, 1, -1>>, <<1, 0, 0, 1, 2, 1, 2>>, <<1, 1, 1, 1, 4, 1, 0>>}
Init == mem = <<>> /\ freed = <<>> /\ slot = [s \in 1..NSlots |-> None] /\ n = 0
St == n < MaxOps /\ n' = n + 1
Room == Len(mem) < MaxSt
NewA == St /\ Room /\ \E d \in 1..NSlots, k \in {0, 4}, sh \in Shapes : New(d, k, sh, 0)
SliceA == St /\ \E d, s \in 1..NSlots, i \in Items : Live(s) /\ LET r == SliceView(slot[s], <<i>>) IN RangesOk(slot[s].sh, <<i>>) /\ r.sh # <<>> /\ Slice(d, s, <<i>>)
TransA == St /\ \E d, s \in 1..NSlots : Transpose(d, s)
ReshA == St /\ \E d, s \in 1..NSlots, sh \in {<<3>>, <<4>>, <<3, 1>>} : ReshapeShare(d, s, sh)
ReshB == St /\ Room /\ \E d, s \in 1..NSlots, sh \in {<<3>>, <<4>>, <<3, 1>>} : ReshapeCopy(d, s, sh)
ReshC == St /\ \E d, s \in 1..NSlots, sh \in {<<3>>, <<4>>, <<3, 1>>} : ReshapeFail(d, s, sh)
CopyA == St /\ Room /\ \E d, s \in 1..NSlots : Copy(d, s)
AssignA == St /\ \E d, s \in 1..NSlots : Assign(d, s)
MoveA == St /\ \E d, s \in 1..NSlots : Move(d, s)
DropA == St /\ \E s \in 1..NSlots : Drop(s)
NestA == St /\ \E d, s \in 1..NSlots : Live(s) /\ Len(slot[s].sh) > 1 /\ slot[s].sh[1] > 0 /\ Nested(d, s, slot[s].sh[1] - 1)
FillA == St /\ \E s \in 1..NSlots : Fill(s, 9)
NegA == St /\ \E s \in 1..NSlots : Negate(s)
ElemA == St /\ \E d, s \in 1..NSlots : ~Overlap(slot[d], slot[s]) /\ AssignElems(d, s)
ExprA == St /\ \E d, a, b \in 1..NSlots : ~Overlap(slot[d], slot[a]) /\ ~Overlap(slot[d], slot[b]) /\ Expr(d, a, b)
Next == NewA \/ SliceA \/ TransA \/ ReshA \/ ReshB \/ ReshC \/ CopyA \/ AssignA \/ MoveA \/ DropA \/ NestA \/ FillA \/ NegA \/ ElemA \/ ExprA
Spec == Init /\ [][Next]_vars

\* The arithmetic of tensor::get_range, as first element, number of elements and step, names exactly Positions.
Resolve(x, k) == IF x < 0 THEN MaxI(k + x, -1) ELSE x
CodeRange(k, it) ==
  LET step == IF it[6] = 1 THEN it[7] ELSE 1
      s0 == IF step >= 0 THEN (IF it[2] = 1 THEN it[3] ELSE 0) ELSE (IF it[2] = 1 THEN Resolve(it[3], k) + 1 ELSE k)
      e0 == IF step >= 0 THEN (IF it[4] = 1 THEN it[5] ELSE k) ELSE (IF it[4] = 1 THEN Resolve(it[5], k) + 1 ELSE 0)
      s1 == Clamp(IF s0 < 0 THEN k + s0 ELSE s0, 0, k)
      e1 == Clamp(IF e0 < 0 THEN k + e0 ELSE e0, 0, k)
  IN IF step > 0 THEN LET e2 == MaxI(e1, s1) IN [first |-> s1, count |-> (e2 - s1 + step - 1) \div step, step |-> step]
     ELSE LET s2 == MaxI(s1, e1) IN [first |-> s2 - 1, count |-> (s2 - e1 + -step - 1) \div (-step), step |-> step]
Progression(r) == [i \in 1..r.count |-> r.first + (i - 1) * r.step]
RangeItems == {<<1, hs, s, he, e, 1, p>> : hs \in {0, 1}, he \in {0, 1}, s \in -6..6, e \in -6..6, p \in {-3, -2, -1, 1, 2, 3}}
RangeArithmetic == n = 0 => \A k \in 0..4, it \in RangeItems : Progression(CodeRange(k, it)) = Positions(k, it)
OldResolve(x, k) == x

\* slicing composes, transposition is an involution, on the views reached
Laws == \A s \in DOMAIN slot : Live(s) =>
  /\ TransposeView(TransposeView(slot[s])).cells = slot[s].cells
  /\ LET v == slot[s] r == <<1, 0, 0, 0, 0, 1, -1>> IN SliceView(SliceView(v, <<r>>), <<r>>).cells = v.cells
  /\ \A k \in 1..Len(slot[s].cells) : Rank(slot[s].sh, Unrank(slot[s].sh, k - 1)) = k - 1
=============================================================================
