-------------------------------- MODULE Expr --------------------------------
(* Expression trees: what shape an expression has and which value it has at   *)
(* an index, one element at a time.  Nodes are records with a kind k.         *)
(*   ten  s d        stored array of shape s, elements d in storage order     *)
(*   sc   v          one value for every index (no axes)                      *)
(*   cnt  v st       v + sum of index * step, unbounded                       *)
(*   seq  d          periodic sequence, unbounded                             *)
(*   lam  v st       a user function of the index (same value as cnt)         *)
(*   lin  v w n e t  evenly spaced from v to w (e: w included; t: n elements) *)
(*   slice a st n    part of a;  pad a v: a surrounded by v without bound     *)
(*   rev a           all axes backwards;  cast a: through another type        *)
(*   resh a s        same storage order, other shape                          *)
(*   dim2 a          a row repeated without bound                             *)
(*   adj a           difference with the previous element                     *)
(*   f1 op a, f2 op a b, f3 op a b c   element by element with broadcasting   *)
(*   cat ax a b      one after another along an axis                          *)
(*   ph a            placeholder, replaced by a;  own/ref a: type erased      *)
EXTENDS Shape
Tup(n, F(_)) == [i \in 1..n |-> F(i)]
RECURSIVE ShapeOf(_)
ShapeOf(t) ==
  CASE t.k = "ten" -> t.s
    [] t.k = "sc" -> <<>>
    [] t.k \in {"cnt", "lam"} -> Const(Len(t.st), Inf)
    [] t.k = "seq" -> <<Inf>>
    [] t.k = "lin" -> <<IF t.t THEN t.n ELSE Inf>>
    [] t.k = "slice" -> LET s == ShapeOf(t.a) IN Tup(Len(s), LAMBDA i : MinI(IF s[i] = Inf THEN Inf ELSE MaxI(0, s[i] - t.st[i]), t.n[i]))
    [] t.k = "pad" -> Const(Len(ShapeOf(t.a)), Inf)
    [] t.k \in {"rev", "cast", "adj", "f1", "ph", "own", "ref"} -> ShapeOf(t.a)
    [] t.k = "resh" -> t.s
    [] t.k = "dim2" -> <<Inf>> \o ShapeOf(t.a)
    [] t.k = "f2" -> CommonAll(<<ShapeOf(t.a), ShapeOf(t.b)>>)
    [] t.k = "f3" -> CommonAll(<<ShapeOf(t.a), ShapeOf(t.b), ShapeOf(t.c)>>)
    [] t.k = "cat" -> LET x == ShapeOf(t.a) y == ShapeOf(t.b) IN Tup(Len(x), LAMBDA i : IF i = t.ax THEN AddInf(x[i], y[i]) ELSE MinI(x[i], y[i]))
Op1(op, x) == CASE op = "neg" -> 0 - x [] op = "abs" -> IF x < 0 THEN 0 - x ELSE x [] op = "sqr" -> x * x
Op2(op, x, y) == CASE op = "add" -> x + y [] op = "sub" -> x - y [] op = "mul" -> x * y [] op = "min" -> MinI(x, y) [] op = "max" -> MaxI(x, y)
Op3(op, x, y, z) == CASE op = "add" -> x + y + z [] op = "clamp" -> MaxI(MinI(x, MaxI(y, z)), MinI(y, z)) [] op = "fma" -> x * y + z
Dot(a, b) == LET RECURSIVE D(_) D(i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + D(i - 1) IN D(Len(a))
RECURSIVE At(_, _)
At(t, ix) ==
  CASE t.k = "ten" -> t.d[ToFlat(t.s, ix) + 1]
    [] t.k = "sc" -> t.v
    [] t.k \in {"cnt", "lam"} -> t.v + Dot(ix, t.st)
    [] t.k = "seq" -> t.d[(ix[1] % Len(t.d)) + 1]
    [] t.k = "lin" -> LET q == IF t.e THEN t.n - 1 ELSE t.n IN IF q = 0 THEN t.v ELSE t.v + ix[1] * ((t.w - t.v) \div q)
    [] t.k = "slice" -> At(t.a, Tup(Len(ix), LAMBDA i : ix[i] + t.st[i]))
    [] t.k = "pad" -> LET s == ShapeOf(t.a) IN IF \E i \in 1..Len(ix) : ix[i] >= s[i] THEN t.v ELSE At(t.a, ix)
    [] t.k = "rev" -> LET s == ShapeOf(t.a) IN At(t.a, Tup(Len(ix), LAMBDA i : s[i] - 1 - ix[i]))
    [] t.k \in {"cast", "ph", "own", "ref"} -> At(t.a, ix)
    [] t.k = "resh" -> At(t.a, FromFlat(ShapeOf(t.a), ToFlat(t.s, ix)))
    [] t.k = "dim2" -> At(t.a, <<ix[2]>>)
    [] t.k = "adj" -> At(t.a, ix) - (IF ix[1] = 0 THEN 0 ELSE At(t.a, <<ix[1] - 1>>))
    [] t.k = "f1" -> Op1(t.op, At(t.a, ix))
    [] t.k = "f2" -> Op2(t.op, At(t.a, Proj(ShapeOf(t.a), ix)), At(t.b, Proj(ShapeOf(t.b), ix)))
    [] t.k = "f3" -> Op3(t.op, At(t.a, Proj(ShapeOf(t.a), ix)), At(t.b, Proj(ShapeOf(t.b), ix)), At(t.c, Proj(ShapeOf(t.c), ix)))
    [] t.k = "cat" -> LET n == ShapeOf(t.a)[t.ax] IN IF ix[t.ax] < n THEN At(t.a, ix) ELSE At(t.b, [ix EXCEPT ![t.ax] = @ - n])
\* evaluation into a destination: the part [start, stop) is written, nothing else
Stop(dst, src, start, size) == Tup(Len(dst), LAMBDA i : LET e == Ext(src, Len(dst) + 1 - i) IN
     MinI(MinI(AddInf(start[i], size[i]), dst[i]), IF i <= Len(dst) - Len(src) THEN Inf ELSE e))
Written(start, stop, ix) == \A i \in 1..Len(ix) : start[i] <= ix[i] /\ ix[i] < stop[i]
Result(t, dst, start, size, old) ==
  LET src == ShapeOf(t) stop == Stop(dst, src, start, size) IN
  [k \in 1..Prod(dst) |-> LET ix == FromFlat(dst, k - 1) IN IF Written(start, stop, ix) THEN At(t, Proj(src, ix)) ELSE old]
=============================================================================
