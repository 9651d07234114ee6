------------------------------- MODULE MCExpr -------------------------------
(* Evaluation in vectors: Get is how each node computes N consecutive elements*)
(* along an axis from vectors of its arguments; the checked statement is that *)
(* it equals one-at-a-time evaluation for every node, width, axis and index,  *)
(* and that the chunked loop writes exactly the requested range.              *)
EXTENDS ExprTrees, TLC
CONSTANTS Widths, MaxLen
VARIABLES tree, todo, buf, pos, bad
vars == <<tree, todo, buf, pos, bad>>
OutOf == 999999   \* stands for memory outside of the array
AddAt(ix, ax, i) == [ix EXCEPT ![ax] = @ + i]
Rep(n, x) == [i \in 1..n |-> x]
Rv(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
RevOff(ix, ax, N) == [i \in 1..Len(ix) |-> IF i = ax THEN N ELSE 1]
OneAxis(d, N) == Dot(d, Const(Len(d), 1)) = N - 1
Bcast(sh, ax) == sh[ax] = 1
PadIn(ix, s, ax, N) == \A i \in 1..Len(ix) : (IF i = ax THEN ix[i] + N - 1 ELSE ix[i]) < s[i]
PadOut(ix, s) == \E i \in 1..Len(ix) : ix[i] >= s[i]
RECURSIVE Get(_, _, _, _)
Arg(t, ix, ax, N) ==     \* argument of an element-wise function
  LET s == ShapeOf(t) d == Len(ix) - Len(s) p == Proj(s, ix) IN
  IF s = <<>> THEN Rep(N, t.v)
  ELSE IF ax <= d THEN Rep(N, Get(t, p, Len(s), 1)[1])
  ELSE IF N > 1 /\ Bcast(s, ax - d) THEN Rep(N, Get(t, p, ax - d, 1)[1]) ELSE Get(t, p, ax - d, N)
Get(t, ix, ax, N) ==
  CASE t.k = "ten" -> [i \in 1..N |-> LET p == AddAt(ix, ax, i - 1) IN IF \E j \in 1..Len(p) : p[j] < 0 \/ p[j] >= t.s[j] THEN OutOf ELSE t.d[ToFlat(t.s, p) + 1]]
    [] t.k = "cnt" -> [i \in 1..N |-> t.v + Dot(ix, t.st) + (i - 1) * t.st[ax]]
    [] t.k = "slice" -> Get(t.a, [i \in 1..Len(ix) |-> ix[i] + t.st[i]], ax, N)
    [] t.k = "pad" -> LET s == ShapeOf(t.a) IN
         IF PadOut(ix, s) THEN Rep(N, t.v)
         ELSE IF PadIn(ix, s, ax, N) THEN Get(t.a, ix, ax, N)
         ELSE [i \in 1..N |-> LET p == AddAt(ix, ax, i - 1) IN IF p[ax] < s[ax] THEN Get(t.a, p, ax, 1)[1] ELSE t.v]
    [] t.k = "rev" -> LET s == ShapeOf(t.a) o == RevOff(ix, ax, N) IN Rv(Get(t.a, [i \in 1..Len(ix) |-> s[i] - ix[i] - o[i]], ax, N))
    [] t.k = "resh" -> LET s == ShapeOf(t.a) F(p) == FromFlat(s, ToFlat(t.s, p)) IN
         IF N = 1 THEN Get(t.a, F(ix), Len(s), 1)
         ELSE LET a == F(ix) b == F(AddAt(ix, ax, N - 1)) d == [i \in 1..Len(s) |-> b[i] - a[i]] xs == {x \in 1..Len(s) : d[x] = N - 1} IN
              IF OneAxis(d, N) /\ xs # {} THEN Get(t.a, a, CHOOSE x \in xs : \A y \in xs : x <= y, N)
              ELSE [i \in 1..N |-> Get(t.a, F(AddAt(ix, ax, i - 1)), Len(s), 1)[1]]
    [] t.k = "dim2" -> IF ax = 1 THEN Rep(N, Get(t.a, <<ix[2]>>, 1, 1)[1]) ELSE Get(t.a, <<ix[2]>>, 1, N)
    [] t.k = "f2" -> LET x == Arg(t.a, ix, ax, N) y == Arg(t.b, ix, ax, N) IN [i \in 1..N |-> IF x[i] = OutOf \/ y[i] = OutOf THEN OutOf ELSE Op2(t.op, x[i], y[i])]
    [] t.k = "cat" -> LET n == ShapeOf(t.a)[t.ax] w == IF t.ax = ax THEN N ELSE 1 IN
         IF ix[t.ax] >= n THEN Get(t.b, AddAt(ix, t.ax, 0 - n), ax, N)
         ELSE IF ix[t.ax] + w <= n THEN Get(t.a, ix, ax, N)
         ELSE [i \in 1..N |-> LET p == AddAt(ix, ax, i - 1) IN IF p[ax] < n THEN Get(t.a, p, ax, 1)[1] ELSE Get(t.b, AddAt(p, ax, 0 - n), ax, 1)[1]]

\* the defects the evaluation had (each makes some tree fail)
BuggyRevOff(ix, ax, N) == Const(Len(ix), N)
BuggyBcast(sh, ax) == sh[Len(sh)] = 1
BuggyPadOut(ix, s) == \A i \in 1..Len(ix) : ix[i] >= s[i]
BuggyOneAxis(d, N) == TRUE

(* ---- evaluation of [start, stop) on one row: any chunking into the allowed widths ---- *)
Cap(s) == [i \in 1..Len(s) |-> MinI(s[i], MaxLen)]
Untouched == 0 - 99
Init == /\ tree \in Trees
        /\ LET s == Cap(ShapeOf(tree)) IN
           /\ \E ax \in 1..Len(s) : \E lo \in 0..1, hi \in {s[ax], s[ax] - 1} : lo <= hi /\ todo = [ax |-> ax, lo |-> lo, hi |-> hi]
           /\ \A i \in 1..Len(s) : s[i] > 0
           /\ buf = [ix \in {p \in [1..Len(s) -> 0..(MaxLen - 1)] : \A i \in 1..Len(s) : p[i] < s[i]} |-> Untouched]
           /\ pos = [lo |-> todo.lo, row |-> [i \in 1..Len(s) |-> 0]]
        /\ bad = FALSE
\* rows of the other axes are visited one by one, a row is cut into any allowed widths
Step == \E N \in Widths :
  /\ pos.lo + N <= todo.hi
  /\ LET at == [pos.row EXCEPT ![todo.ax] = pos.lo] v == Get(tree, at, todo.ax, N) IN
     /\ bad' = (bad \/ \E i \in 1..N : v[i] = OutOf)
     /\ buf' = [ix \in DOMAIN buf |-> IF \E i \in 1..N : ix = AddAt(at, todo.ax, i - 1) THEN v[ix[todo.ax] - pos.lo + 1] ELSE buf[ix]]
     /\ pos' = [pos EXCEPT !.lo = @ + N]
  /\ UNCHANGED <<tree, todo>>
NextRow == /\ pos.lo >= todo.hi
           /\ LET s == Cap(ShapeOf(tree)) o == {i \in 1..Len(s) : i # todo.ax} IN
              \E i \in o : pos.row[i] + 1 < s[i] /\ pos' = [lo |-> todo.lo, row |-> [pos.row EXCEPT ![i] = @ + 1]]
           /\ UNCHANGED <<tree, todo, buf, bad>>
Next == Step \/ NextRow
Spec == Init /\ [][Next]_vars
NoOverread == ~bad
Elementwise == \A ix \in DOMAIN buf : buf[ix] # Untouched => buf[ix] = At(tree, ix)
RangeOnly == \A ix \in DOMAIN buf : (buf[ix] # Untouched) => (ix[todo.ax] >= todo.lo /\ ix[todo.ax] < todo.hi)
RowDone == pos.lo = todo.hi => \A ix \in DOMAIN buf : (\A i \in 1..Len(ix) : i # todo.ax => ix[i] = pos.row[i]) /\ ix[todo.ax] >= todo.lo /\ ix[todo.ax] < todo.hi => buf[ix] # Untouched
=============================================================================
