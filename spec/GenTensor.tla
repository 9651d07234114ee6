------------------------------ MODULE GenTensor -----------------------------
EXTENDS Tensor, TLC, Json
CONSTANTS NSlots, MaxOps, Variants, MaxLen, Big
VARIABLES script, n
vars == <<mem, freed, slot, script, n>>
Pick(S) == {RandomElement(S)}
S == 1..NSlots
Init == mem = <<>> /\ freed = <<>> /\ slot = [s \in S |-> None] /\ script = <<>> /\ n = 0
Start == n = 0 /\ n' = 1 /\ (\E v \in Pick(Variants) : script' = [v |-> v, ops |-> <<>>]) /\ UNCHANGED tvs
Log(op) == /\ n > 0 /\ n <= MaxOps /\ n' = n + 1 /\ script' = [script EXCEPT !.ops = Append(@, op)]
RandSh(k) == [i \in 1..k |-> RandomElement(IF k = 1 THEN 1..Big ELSE 1..MaxLen)]
NewA == n > 0 /\ \E d \in Pick(S), kind \in Pick({0, 0, 1, 2, 3, 4}), k \in Pick({1, 2, 2, 3, 3}), e \in Pick(1..12) :
        \E sh0 \in {RandSh(IF kind = 3 THEN 1 ELSE k)} :
        LET sh == IF e = 1 THEN [sh0 EXCEPT ![1] = 0] ELSE sh0
            base == 40 * (Len(mem) % 4)
        IN New(d, kind, sh, base) /\ Log(<<"N", d, kind, Len(sh), sh, base>>)
RandRange(k) == LET p == RandomElement({-3, -2, -1, -1, 1, 1, 2, 3})
                IN <<1, RandomElement({0, 1}), RandomElement(-(k + 2)..(k + 2)), RandomElement({0, 1}), RandomElement(-(k + 2)..(k + 2)), RandomElement({0, 1}), p>>
RandItem(k) ==
  LET w == RandomElement(1..10) IN
  IF w <= 3 /\ k > 0 THEN <<0, RandomElement(-k..(k - 1))>>
  ELSE IF w = 4 /\ k > 0 THEN LET s == RandomElement(0..(k - 1)) IN <<1, 1, s, 1, s + RandomElement(0..4), 1, 0>>
  ELSE IF w = 5 THEN <<1, 0, 0, 0, 0, 0, 0>>
  ELSE RandRange(k)
HasRange(its) == \E i \in DOMAIN its : its[i][1] = 1
SliceA == n > 0 /\ \E d \in Pick(S), s \in Pick({x \in S : Live(x)} \cup {1}) : Live(s) /\
          \E m \in Pick(1..Len(slot[s].sh)) : \E its \in {[i \in 1..m |-> RandItem(slot[s].sh[i])]} :
          (m < Len(slot[s].sh) \/ HasRange(its)) /\ Slice(d, s, its) /\ Log(<<"S", d, s, m, its>>)
SubA == n > 0 /\ \E d \in Pick(S), s \in Pick({x \in S : Live(x)} \cup {1}) : Live(s) /\
        \E a \in {[i \in 1..Len(slot[s].sh) |-> RandomElement(0..slot[s].sh[i])]} :
        \E b \in {[i \in 1..Len(slot[s].sh) |-> RandomElement(a[i]..slot[s].sh[i])]} :
        Sub(d, s, a, b) /\ Log(<<"U", d, s, a, b>>)
TransA == n > 0 /\ \E d \in Pick(S), s \in Pick(S) : Transpose(d, s) /\ Log(<<"T", d, s>>)
Factor(m) == IF m = 0 THEN <<0, 3>>
             ELSE LET dv == {x \in 1..m : m % x = 0} a == RandomElement(dv) dw == {x \in dv : (m \div a) % x = 0} b == RandomElement(dw)
                  IN RandomElement({<<m>>, <<a, m \div a>>, <<a, b, m \div (a * b)>>})
ReshA == n > 0 /\ \E d \in Pick(S), s \in Pick(S), al \in Pick({0, 1}), w \in Pick(1..8) : Live(s) /\
         \E sh0 \in {Factor(Len(slot[s].cells))} :
         LET sh == IF w = 1 THEN [sh0 EXCEPT ![1] = @ + 1] ELSE sh0
             op == <<"R", d, s, al, Len(sh), sh>>
             v == slot[s]
         IN IF Prod(sh) # Len(v.cells) THEN ReshapeFail(d, s, sh) /\ Log(op)
            ELSE IF MustShare(v) THEN ReshapeShare(d, s, sh) /\ Log(op)
            ELSE ~MayShare(v) /\ (IF al = 1 THEN ReshapeCopy(d, s, sh) ELSE ReshapeFail(d, s, sh)) /\ Log(op)
CopyA == n > 0 /\ \E d \in Pick(S), s \in Pick(S) : Copy(d, s) /\ Log(<<"C", d, s>>)
MapA == n > 0 /\ \E d \in Pick(S), s \in Pick(S), k \in Pick(1..3), w \in Pick({0, 1}) : Map(d, s, k) /\ Log(<<"P", d, s, k, w>>)
ZipA == n > 0 /\ \E d \in Pick(S), a \in Pick(S), b \in Pick(S), w \in Pick({0, 1}) : Zip(d, a, b) /\ Log(<<"Z", d, a, b, w>>)
AssignA == n > 0 /\ \E d \in Pick(S), s \in Pick(S) : Assign(d, s) /\ Log(<<"A", d, s>>)
SelfA == n > 0 /\ \E s \in Pick(S) : Assign(s, s) /\ Log(<<"A", s, s>>)
MoveA == n > 0 /\ \E d \in Pick(S), s \in Pick(S) : Move(d, s) /\ Log(<<"M", d, s>>)
DropA == n > 0 /\ \E s \in Pick(S) : Drop(s) /\ Log(<<"D", s>>)
NestA == n > 0 /\ \E d \in Pick(S), s \in Pick(S) : Live(s) /\ Len(slot[s].sh) > 1 /\ slot[s].sh[1] > 0 /\
         \E i \in Pick(0..(slot[s].sh[1] - 1)) : Nested(d, s, i) /\ Log(<<"X", d, s, i>>)
WriteA == n > 0 /\ \E s \in Pick(S), x \in Pick(-9..-1) : Live(s) /\ Len(slot[s].cells) > 0 /\
          \E ix \in {[i \in 1..Len(slot[s].sh) |-> RandomElement(0..(slot[s].sh[i] - 1))]} :
          WriteAt(s, ix, x) /\ Log(<<"W", s, ix, x>>)
FillA == n > 0 /\ \E s \in Pick(S), x \in Pick(-20..-10) : Fill(s, x) /\ Log(<<"L", s, x>>)
NegA == n > 0 /\ \E s \in Pick(S) : Live(s) /\ Cardinality(Cells(slot[s])) = Len(slot[s].cells) /\ Negate(s) /\ Log(<<"I", s>>)
\* destinations that name one cell several times have no defined order of writes
Single(s) == Cardinality(Cells(slot[s])) = Len(slot[s].cells)
ElemSet == {<<d, s>> \in S \X S : Live(d) /\ Live(s) /\ Len(slot[d].sh) = Len(slot[s].sh) /\ Single(d) /\ ~Overlap(slot[d], slot[s])}
ElemEq == {t \in ElemSet : slot[t[1]].sh = slot[t[2]].sh}
ElemA == n > 0 /\ ElemEq # {} /\ \E t \in Pick(ElemEq), w \in Pick({0, 1}) : AssignElems(t[1], t[2]) /\ Log(<<"V", t[1], t[2], w>>)
ElemBadA == n > 0 /\ ElemSet \ ElemEq # {} /\ \E t \in Pick(ElemSet \ ElemEq) : AssignBad(t[1], t[2]) /\ Log(<<"V", t[1], t[2], 0>>)
Small(s) == \A k \in DOMAIN slot[s].cells : Vals(slot[s])[k] < 10000 /\ Vals(slot[s])[k] > -10000
Usable(d, a) == Live(a) /\ CanUse(slot[a], slot[d].sh) /\ ~Overlap(slot[d], slot[a]) /\ Small(a)
ExprSet == {t \in S \X S \X S :
             LET d == t[1] a == t[2] b == t[3] sh == slot[d].sh IN
             Live(d) /\ Single(d) /\ Usable(d, a) /\ Usable(d, b)
             /\ Prod(sh) > 0 /\ (Len(slot[a].sh) = Len(sh) \/ Len(slot[b].sh) = Len(sh))
             /\ \A i \in DOMAIN sh : AxisLen(slot[a], Len(sh), i) = sh[i] \/ AxisLen(slot[b], Len(sh), i) = sh[i]}
ExprA == n > 0 /\ ExprSet # {} /\ \E t \in Pick(ExprSet) : Expr(t[1], t[2], t[3]) /\ Log(<<"E", t[1], t[2], t[3]>>)
\* a new tensor that can be broadcast with an existing one
LikeSh(sh) == LET k == RandomElement(1..Len(sh)) IN [i \in 1..k |-> IF RandomElement({0, 1, 2}) = 0 THEN 1 ELSE sh[i + Len(sh) - k]]
LikeA == n > 0 /\ \E d \in Pick(S), s \in Pick(S) : Live(s) /\ \E sh0 \in {LikeSh(slot[s].sh)}, kind \in Pick({0, 2, 4}) :
         LET sh == SubSeq(sh0, 1, Len(sh0)) IN New(d, kind, sh, 40) /\ Log(<<"N", d, kind, Len(sh), sh, 40>>)
EqA == n > 0 /\ \E a \in Pick(S), b \in Pick(S) : Live(a) /\ Live(b) /\ Len(slot[a].sh) = Len(slot[b].sh) /\ UNCHANGED tvs /\ Log(<<"Q", a, b>>)
Finish == n = MaxOps + 1 /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<mem, freed, slot, script>>
Next == Start \/ NewA \/ SliceA \/ SliceA \/ SliceA \/ SubA \/ TransA \/ ReshA \/ ReshA \/ CopyA \/ MapA \/ ZipA \/ AssignA \/ SelfA \/ MoveA
        \/ DropA \/ NestA \/ WriteA \/ FillA \/ NegA \/ ElemA \/ ElemA \/ ElemBadA \/ ExprA \/ ExprA \/ LikeA \/ LikeA \/ EqA \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
