------------------------------- MODULE MCSmall -------------------------------
(* The small buffer as it is built - some cells of its own, a block of memory *)
(* when more are needed, and a pointer to the ones in use - is the sequence   *)
(* of the model through all histories.  And fractions in lowest terms obey    *)
(* the laws of arithmetic.                                                    *)
EXTENDS Small, TLC, FiniteSets
CONSTANTS Cap, MaxLen, Range
VARIABLES c   \* id -> [own: Cap cells, heap: sequence, at: "own"/"heap", size]
vars == <<v, q, c>>
Ids == {1, 2}
Vals == {1, 2}
Junk == 0
None == [own |-> [i \in 1..Cap |-> Junk], heap |-> <<>>, at |-> "own", size |-> 0]
\* memory beyond the end of what is there holds nothing anyone wrote
At(s, i) == IF i <= Len(s) THEN s[i] ELSE Junk
Cell(b, i) == IF b.at = "own" THEN At(b.own, i) ELSE At(b.heap, i)
Abs1(b) == [i \in 1..b.size |-> Cell(b, i)]
Init == v = [i \in Ids |-> <<>>] /\ q = <<>> /\ c = [i \in Ids |-> None]
Fits(k) == k <= Cap
Resized(b, k) ==
  LET from == Abs1(b)  keep == IF k < b.size THEN k ELSE b.size IN
  IF Fits(k)
  THEN [own |-> IF b.at = "own" THEN b.own ELSE [i \in 1..Cap |-> IF i <= keep THEN from[i] ELSE b.own[i]], heap |-> <<>>, at |-> "own", size |-> k]
  ELSE [own |-> b.own, heap |-> [i \in 1..k |-> IF i <= keep THEN from[i] ELSE Junk], at |-> "heap", size |-> k]
Store(b, i, x) == IF b.at = "own" THEN [b EXCEPT !.own[i] = x] ELSE IF i <= Len(b.heap) THEN [b EXCEPT !.heap[i] = x] ELSE b
\* sizes, pointers and own cells change places, then pointers to own cells are set right
Own(k) == k <= Cap
Swapped(a, b) == [own |-> b.own, heap |-> b.heap, at |-> IF Own(b.size) THEN "own" ELSE "heap", size |-> b.size]
Push(i, x) == /\ c[i].size < MaxLen
              /\ c' = [c EXCEPT ![i] = Store(Resized(@, @.size + 1), @.size + 1, x)] /\ v' = [v EXCEPT ![i] = Pushed(@, x)]
Pop(i) == c[i].size > 0 /\ c' = [c EXCEPT ![i] = Resized(@, @.size - 1)] /\ v' = [v EXCEPT ![i] = Popped(@)]
Cut(i, k) == k <= c[i].size /\ c' = [c EXCEPT ![i] = Resized(@, k)] /\ v' = [v EXCEPT ![i] = Kept(@, k)]
Wr(i, j, x) == j <= c[i].size /\ c' = [c EXCEPT ![i] = Store(@, j, x)] /\ v' = [v EXCEPT ![i] = Write(@, j, x)]
Exchange == c' = [c EXCEPT ![1] = Swapped(c[1], c[2]), ![2] = Swapped(c[2], c[1])] /\ v' = [v EXCEPT ![1] = v[2], ![2] = v[1]]
\* a copy, made aside and exchanged
CopyTo(i, j) == LET s == Abs1(c[j])  b == Resized(None, c[j].size)
                    b2 == IF b.at = "own" THEN [b EXCEPT !.own = [k \in 1..Cap |-> IF k <= Len(s) THEN s[k] ELSE Junk]] ELSE [b EXCEPT !.heap = s] IN
                c' = [c EXCEPT ![i] = Swapped(c[i], b2)] /\ v' = [v EXCEPT ![i] = v[j]]
Next == UNCHANGED q /\ (Exchange \/ \E i \in Ids : Pop(i) \/ (\E x \in Vals : Push(i, x) \/ \E j \in 1..MaxLen : Wr(i, j, x)) \/ (\E k \in 0..MaxLen : Cut(i, k)) \/ \E j \in Ids : CopyTo(i, j))
Spec == Init /\ [][Next]_vars
Refines == \A i \in Ids : v[i] = Abs1(c[i])
NoBlockLost == \A i \in Ids : (c[i].at = "heap") = (c[i].size > Cap)
\* broken: after an exchange a full buffer is taken for one in memory
OwnLess(k) == k < Cap

Q == { Norm(a, d) : a \in -Range..Range, d \in (1..Range) }
ASSUME \A a \in -Range..Range, d \in (-Range..Range) \ {0} : LET x == Norm(a, d) IN Lowest(x) /\ x[1] * d = a * x[2]
ASSUME \A x, y \in Q : /\ Plus(x, y) = Plus(y, x) /\ Times(x, y) = Times(y, x) /\ Minus(Plus(x, y), y) = x /\ (y[1] # 0 => Times(Over(x, y), y) = x)
                       /\ (Less(x, y) \/ Less(y, x) \/ x = y) /\ ~(Less(x, y) /\ Less(y, x))
                       /\ \A z \in {<<1, 2>>, <<-2, 3>>, <<3, 1>>} : Times(z, Plus(x, y)) = Plus(Times(z, x), Times(z, y)) /\ Plus(Plus(x, y), z) = Plus(x, Plus(y, z))
=============================================================================
