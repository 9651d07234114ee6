------------------------------ MODULE MCShape -------------------------------
(* Laws of the shape algebra over all small shapes, and the odometer that     *)
(* walks a box, as a state machine.                                           *)
EXTENDS Shape, TLC
CONSTANTS Extents, MaxRank, BoxMax
VARIABLES a, b, c, cur, hist, done
vars == <<a, b, c, cur, hist, done>>
ShapesOf(r) == [1..r -> Extents]
AllShapes == UNION {ShapesOf(r) : r \in 0..MaxRank}
\* broadcasting triples (cur = <<>>) and walks: a = start, b = stop
Triples == /\ a \in AllShapes /\ b \in AllShapes /\ c \in AllShapes /\ Len(a) >= Len(b)
           /\ cur = <<>> /\ hist = <<>> /\ done = TRUE
Walks == /\ \E r \in 1..3 : a \in [1..r -> 0..1] /\ b \in [1..r -> 1..BoxMax] /\ c = b
         /\ (\A i \in 1..Len(a) : a[i] < b[i]) /\ cur = a /\ hist = <<a>> /\ done = FALSE
Init == Triples \/ Walks
Step == /\ ~done
        /\ LET n == Succ(cur, a, b, Len(a)) IN
           IF n = <<>> THEN done' = TRUE /\ cur' = cur /\ hist' = hist
           ELSE done' = FALSE /\ cur' = n /\ hist' = Append(hist, n)
        /\ UNCHANGED <<a, b, c>>
Next == Step
Spec == Init /\ [][Next]_vars
IsWalk == hist # <<>>
CommonU(x, y) == Common(x, y)
Symmetric == ~IsWalk => CommonU(a, b) = CommonU(b, a)
Grouping == ~IsWalk => CombinationOk(<<a, b, c>>, CommonU(a, CommonU(b, c))) /\ CombinationOk(<<a, b, c>>, CommonU(CommonU(a, b), c))
Idempotent == ~IsWalk => CommonU(a, a) = a /\ CommonU(a, <<>>) = a
Finite(s) == \A i \in 1..Len(s) : s[i] # Inf /\ s[i] # 0
\* assignable = broadcasting the source does not change the destination
Assignable == (~IsWalk /\ Finite(a) /\ Finite(b) /\ Len(a) > 0) => (CanAssign(a, b) <=> Common(a, b) = [k \in 1..MaxI(Len(a), Len(b)) |-> Ext(a, MaxI(Len(a), Len(b)) + 1 - k)])
\* the odometer visits the indices of the box in storage order, each once
InOrder == IsWalk => \A k \in 1..Len(hist) : hist[k] = [i \in 1..Len(a) |-> a[i] + FromFlat(Box(a, b), k - 1)[i]]
Complete == IsWalk /\ done => Len(hist) = Prod(Box(a, b))
Bijection == (IsWalk /\ \A i \in 1..Len(a) : a[i] = 0) =>
  /\ ToFlat(b, cur) = Len(hist) - 1 /\ FromFlat(b, ToFlat(b, cur)) = cur
  /\ ToFlat(b, cur) = LET s == StridesC(b, 1) IN ToFlat([i \in 1..1 |-> 1], <<0>>) + (IF Len(b) = 1 THEN cur[1] * s[1] ELSE IF Len(b) = 2 THEN cur[1] * s[1] + cur[2] * s[2] ELSE cur[1] * s[1] + cur[2] * s[2] + cur[3] * s[3])
  /\ StridesF(b, 1) = Reverse(StridesC(Reverse(b), 1))
\* an unbounded extent against a unit one: losing the unboundedness is not associative with CommonAll
LossyCommon(x, y) == LET r == Common(x, y) IN [k \in 1..Len(r) |-> IF r[k] = Inf /\ (Ext(x, Len(r) + 1 - k) = 1 \/ Ext(y, Len(r) + 1 - k) = 1) THEN 1 ELSE r[k]]
=============================================================================
