------------------------------- MODULE Tensor -------------------------------
(* Tensors as views of shared storages.  A view is its shape and, in row-     *)
(* major order, the storage cell each of its elements names; there are no     *)
(* strides here, so any way of describing the same cells is the same view.    *)
(* A storage is released exactly when the last view of it goes away.          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES mem,    \* storages ever made: sequence of contents
          freed,  \* how many times each storage was released
          slot    \* tensor variables: None or a view
tvs == <<mem, freed, slot>>

None == [st |-> 0, sh |-> <<>>, cells |-> <<>>, c |-> FALSE]
Live(s) == slot[s].st # 0

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
\* weight of position i of an index
W(sh, i) == Prod(SubSeq(sh, i + 1, Len(sh)))
Unrank(sh, r) == [i \in 1..Len(sh) |-> (r \div W(sh, i)) % sh[i]]
RECURSIVE RankFrom(_, _, _)
RankFrom(sh, ix, i) == IF i > Len(sh) THEN 0 ELSE ix[i] * W(sh, i) + RankFrom(sh, ix, i + 1)
Rank(sh, ix) == RankFrom(sh, ix, 1)
At(v, ix) == v.cells[Rank(v.sh, ix) + 1]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
View(st, sh, cell(_), c) == [st |-> st, sh |-> sh, cells |-> [k \in 1..Prod(sh) |-> cell(Unrank(sh, k - 1))], c |-> c]

(* ---- ranges: <<0, i>> one position, <<1, hasStart, start, hasStop, stop, hasStep, step>> ---- *)
Norm(x, n) == IF x < 0 THEN x + n ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a < b THEN b ELSE a
Clamp(x, lo, hi) == MaxI(lo, MinI(x, hi))
Up(n) == [i \in 1..n |-> i - 1]
Down(n) == [i \in 1..n |-> n - i]
Positions(n, it) ==
  IF it[1] = 0 THEN <<Norm(it[2], n)>>
  ELSE LET step == IF it[6] = 1 THEN it[7] ELSE 1
           s == Norm(it[3], n)
           e == Norm(it[5], n)
       IN IF step > 0
          THEN LET lo == IF it[2] = 1 THEN Clamp(s, 0, n) ELSE 0
                   hi == IF it[4] = 1 THEN Clamp(e, 0, n) ELSE n
               IN SelectSeq(Up(n), LAMBDA p : p >= lo /\ p < hi /\ (p - lo) % step = 0)
          ELSE IF step < 0
          THEN LET lo == IF it[2] = 1 THEN Clamp(s, -1, n - 1) ELSE n - 1
                   hi == IF it[4] = 1 THEN Clamp(e, -1, n - 1) ELSE -1
               IN SelectSeq(Down(n), LAMBDA p : p <= lo /\ p > hi /\ (lo - p) % (-step) = 0)
          ELSE [i \in 1..(it[5] - it[3]) |-> it[3]]      \* step zero repeats one element
RangesOk(sh, its) ==
  Len(its) <= Len(sh) /\ Len(its) > 0
  /\ \A i \in DOMAIN its :
     IF its[i][1] = 0 THEN its[i][2] < sh[i] /\ its[i][2] >= -sh[i]
     ELSE IF its[i][6] = 1 /\ its[i][7] = 0 THEN its[i][2] = 1 /\ its[i][4] = 1 /\ its[i][3] >= 0 /\ its[i][3] < sh[i] /\ its[i][5] >= its[i][3]
     ELSE TRUE
\* one result axis per range; positions drop their axis; missing ranges take the whole axis
SliceView(v, its) ==
  LET n == Len(v.sh)
      pos == [i \in 1..n |-> IF i <= Len(its) THEN Positions(v.sh[i], its[i]) ELSE Up(v.sh[i])]
      keeps(i) == i > Len(its) \/ its[i][1] = 1
      axes == SelectSeq([i \in 1..n |-> i], keeps)
      axisno(i) == Len(SelectSeq([j \in 1..i |-> j], keeps))
      sh == [a \in 1..Len(axes) |-> Len(pos[axes[a]])]
  IN View(v.st, sh, LAMBDA ix : At(v, [i \in 1..n |-> pos[i][IF keeps(i) THEN ix[axisno(i)] + 1 ELSE 1]]), FALSE)
SubView(v, a, b) == View(v.st, [i \in DOMAIN a |-> b[i] - a[i]], LAMBDA ix : At(v, [i \in DOMAIN a |-> a[i] + ix[i]]), FALSE)
TransposeView(v) == IF Len(v.sh) <= 1 THEN v ELSE View(v.st, Reverse(v.sh), LAMBDA ix : At(v, Reverse(ix)), FALSE)
Consecutive(v) == \A k \in 1..(Len(v.cells) - 1) : v.cells[k + 1] = v.cells[k] + 1
\* A view certainly is contiguous if it was made so, or if its strides are determined by its cells.
MustShare(v) == v.c \/ (Consecutive(v) /\ \A i \in DOMAIN v.sh : v.sh[i] > 1)
MayShare(v) == Consecutive(v)
Vals(v) == [k \in 1..Len(v.cells) |-> mem[v.st][v.cells[k]]]

(* ---- bookkeeping of storages ---- *)
UsersOf(st, sl) == {s \in DOMAIN sl : sl[s].st = st}
\* release the storages that the new assignment of slots leaves without a user
SetSlots(sl, m) ==
  /\ slot' = sl
  /\ mem' = m
  /\ freed' = [st \in 1..Len(m) |-> LET f == IF st <= Len(freed) THEN freed[st] ELSE 0
                                    IN IF f = 0 /\ UsersOf(st, sl) = {} THEN 1 ELSE f]
Put(d, v) == SetSlots([slot EXCEPT ![d] = v], mem)
PutNewC(d, sh, vals, cells, c) ==
  SetSlots([slot EXCEPT ![d] = [st |-> Len(mem) + 1, sh |-> sh, cells |-> cells, c |-> c]], Append(mem, vals))
PutNew(d, sh, vals, cells) == PutNewC(d, sh, vals, cells, TRUE)
RowMajor(sh) == [k \in 1..Prod(sh) |-> k]
\* first axis fastest: the cell of an index is its rank with the axes reversed
ColMajor(sh) == [k \in 1..Prod(sh) |-> Rank(Reverse(sh), Reverse(Unrank(sh, k - 1))) + 1]

\* A write through view v of the values f(k), k = position in the view.
RECURSIVE WriteSeq(_, _, _, _)
WriteSeq(content, cells, vals, k) == IF k > Len(cells) THEN content ELSE WriteSeq([content EXCEPT ![cells[k]] = vals[k]], cells, vals, k + 1)
Store(v, vals) == SetSlots(slot, [mem EXCEPT ![v.st] = WriteSeq(@, v.cells, vals, 1)])
Cells(v) == {v.cells[k] : k \in 1..Len(v.cells)}
Overlap(a, b) == a.st = b.st /\ Cells(a) \cap Cells(b) # {}

(* ---- actions ---- *)
\* kinds: 0, 1, 2 row-major storage of its own or external, 3 from a container, 4 first axis fastest
New(d, kind, sh, base) ==
  LET n == Prod(sh) IN
  IF kind = 4 THEN LET cells == ColMajor(sh) IN PutNewC(d, sh, WriteSeq([k \in 1..n |-> 0], cells, [k \in 1..n |-> base + k], 1), cells, FALSE)
  ELSE PutNew(d, sh, [k \in 1..n |-> IF kind = 1 THEN base ELSE base + k], RowMajor(sh))
Slice(d, s, its) == Live(s) /\ RangesOk(slot[s].sh, its) /\ Put(d, SliceView(slot[s], its))
Sub(d, s, a, b) == Live(s) /\ Put(d, SubView(slot[s], a, b))
Transpose(d, s) == Live(s) /\ Put(d, TransposeView(slot[s]))
Nested(d, s, i) == Live(s) /\ Len(slot[s].sh) > 1 /\ Put(d, SliceView(slot[s], <<<<0, i>>>>))
Reshaped(v, sh) == [v EXCEPT !.sh = sh, !.c = TRUE]
ReshapeShare(d, s, sh) == Live(s) /\ Prod(sh) = Len(slot[s].cells) /\ MayShare(slot[s]) /\ Put(d, Reshaped(slot[s], sh))
ReshapeCopy(d, s, sh) == Live(s) /\ Prod(sh) = Len(slot[s].cells) /\ ~MustShare(slot[s]) /\ PutNew(d, sh, Vals(slot[s]), RowMajor(sh))
ReshapeFail(d, s, sh) == Live(s) /\ (Prod(sh) # Len(slot[s].cells) \/ ~MustShare(slot[s])) /\ UNCHANGED tvs
Copy(d, s) == Live(s) /\ PutNew(d, slot[s].sh, Vals(slot[s]), RowMajor(slot[s].sh))
Map(d, s, k) == Live(s) /\ PutNew(d, slot[s].sh, [i \in 1..Len(slot[s].cells) |-> Vals(slot[s])[i] + k], RowMajor(slot[s].sh))
Zip(d, a, b) == Live(a) /\ Live(b) /\ slot[a].sh = slot[b].sh
                /\ PutNew(d, slot[a].sh, [i \in 1..Len(slot[a].cells) |-> Vals(slot[a])[i] - Vals(slot[b])[i]], RowMajor(slot[a].sh))
Assign(d, s) == Live(s) /\ Put(d, slot[s])
Move(d, s) == Live(s) /\ d # s /\ SetSlots([slot EXCEPT ![d] = slot[s], ![s] = None], mem)
Drop(s) == Live(s) /\ Put(s, None)
WriteAt(s, ix, x) == Live(s) /\ SetSlots(slot, [mem EXCEPT ![slot[s].st] = [@ EXCEPT ![At(slot[s], ix)] = x]])
Fill(s, x) == Live(s) /\ Store(slot[s], [k \in 1..Len(slot[s].cells) |-> x])
Negate(s) == Live(s) /\ Store(slot[s], [k \in 1..Len(slot[s].cells) |-> -Vals(slot[s])[k]])
AssignElems(d, s) == Live(d) /\ Live(s) /\ slot[d].sh = slot[s].sh /\ Store(slot[d], Vals(slot[s]))
AssignBad(d, s) == Live(d) /\ Live(s) /\ slot[d].sh # slot[s].sh /\ UNCHANGED tvs

\* elementwise expressions over arguments of fewer or shorter axes: an argument axis of one element is repeated
Bcast(v, sh, ix) == LET n == Len(v.sh) IN mem[v.st][At(v, [i \in 1..n |-> IF v.sh[i] = 1 THEN 0 ELSE ix[i + Len(sh) - n]])]
CanUse(v, sh) == Len(v.sh) <= Len(sh) /\ \A i \in DOMAIN v.sh : v.sh[i] = 1 \/ v.sh[i] = sh[i + Len(sh) - Len(v.sh)]
\* d's elements := a + b; the arguments together have the shape of d
AxisLen(v, n, i) == IF i + Len(v.sh) - n < 1 THEN 1 ELSE v.sh[i + Len(v.sh) - n]
Expr(d, a, b) ==
  /\ Live(d) /\ Live(a) /\ Live(b)
  /\ LET sh == slot[d].sh IN
     /\ CanUse(slot[a], sh) /\ CanUse(slot[b], sh)
     /\ \A i \in DOMAIN sh : AxisLen(slot[a], Len(sh), i) = sh[i] \/ AxisLen(slot[b], Len(sh), i) = sh[i]
     /\ Store(slot[d], [k \in 1..Prod(sh) |-> Bcast(slot[a], sh, Unrank(sh, k - 1)) + Bcast(slot[b], sh, Unrank(sh, k - 1))])

(* ---- properties ---- *)
Inside == \A s \in DOMAIN slot : Live(s) => \A k \in DOMAIN slot[s].cells : slot[s].cells[k] \in 1..Len(mem[slot[s].st])
ShapeFits == \A s \in DOMAIN slot : Live(s) => Len(slot[s].cells) = Prod(slot[s].sh)
KeptAlive == \A s \in DOMAIN slot : Live(s) => freed[slot[s].st] = 0
FreedOnce == \A st \in DOMAIN freed : freed[st] = IF UsersOf(st, slot) = {} THEN 1 ELSE 0
=============================================================================
