------------------------------ MODULE MCReduce -------------------------------
(* The lane accumulator fed by chunks of any width is the reduction of the    *)
(* elements one by one; the histogram loses and duplicates nothing.           *)
EXTENDS Reduce, TLC
CONSTANTS W, Vals, MaxLen, Bins
ValsSmall == {-2, 0, 1, 2}
ValsTwo == {-1, 2}
VARIABLES op, tr, acc, h, seen
vars == <<op, tr, acc, h, seen>>
Widths == {1, 2, 4, 8}
PutU(o, t, a, xs) == Put(o, t, a, xs)
CellU(k, x) == IntCell(k, x)
Init == /\ op \in NoOp /\ tr \in {"id", "sqr"} /\ acc = NewAcc(op, W) /\ h = NewHist(Bins) /\ seen = <<>>
Step == \E n \in Widths : n + Len(seen) <= MaxLen /\ \E xs \in [1..n -> Vals] :
          /\ acc' = PutU(op, tr, acc, xs) /\ seen' = seen \o xs
          /\ h' = FoldLeft(LAMBDA g, x : [g EXCEPT ![CellU(Bins, x)] = @ + 1], h, xs)
          /\ UNCHANGED <<op, tr>>
Next == Step
Spec == Init /\ [][Next]_vars
SameResult == Horizontal(op, acc) = Fold(op, tr, seen)
Counted == acc.n = Len(seen)
Conserved == NumSum(h) = Len(seen)
\* each cell holds exactly the samples whose value belongs there
RightBin == /\ h[1] = Len(SelectSeq(seen, LAMBDA x : x < 0)) /\ h[Bins + 2] = Len(SelectSeq(seen, LAMBDA x : x > Bins - 1))
            /\ \A b \in 0..(Bins - 1) : h[b + 2] = Len(SelectSeq(seen, LAMBDA x : x = b))
\* a narrow chunk that overwrites its lanes
Overwrite(o, t, a, xs) == IF Len(xs) < W THEN [lanes |-> [i \in 1..W |-> IF i <= Len(xs) THEN Tran(t, xs[i]) ELSE a.lanes[i]], n |-> a.n + Len(xs)] ELSE Put(o, t, a, xs)
\* the sample one above the range counted in the last bin
OffByOne(k, x) == IF x < 0 THEN 1 ELSE IF x > k THEN k + 2 ELSE NumMin(x, k - 1) + 2
=============================================================================
