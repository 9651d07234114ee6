----------------------------- MODULE ExprTrace ------------------------------
(* Recorded evaluations of real expression trees.                             *)
EXTENDS Expr, TraceUtil
VARIABLES l
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == l = 1
TNew == Is("init")
Fill == 0 - 77
TEval == /\ Is("E")
         /\ LET src == ShapeOf(Rec.t) ok == CanAssign(Rec.d, src) IN
            /\ Eq("shape", Rec.shape, src)
            /\ Eq("inside", Rec.ok, TRUE)
            /\ Eq("returned", Rec.ret, IF ok THEN Stop(Rec.d, src, Rec.st, Rec.n) ELSE Const(Len(Rec.d), 0))
            /\ Eq("values", Rec.out, IF ok THEN Result(Rec.t, Rec.d, Rec.st, Rec.n, Fill) ELSE Const(Prod(Rec.d), Fill))
TGet == /\ Is("G")
        /\ Eq("vector", Rec.out, [i \in 1..Rec.w |-> At(Rec.t, [Rec.ix EXCEPT ![Rec.ax] = @ + i - 1])])
Spread(t, c, n) == [k \in 1..n |-> IF k <= c THEN At(t, Proj(ShapeOf(t), <<k - 1>>)) ELSE Fill]
TPack == /\ Is("P")
         /\ LET c == Common(ShapeOf(Rec.t), ShapeOf(Rec.u))[1] IN
            /\ Eq("first", Rec.x, Spread(Rec.t, c, Rec.n)) /\ Eq("second", Rec.y, Spread(Rec.u, c, Rec.n)) /\ Eq("inside", Rec.ok, TRUE)
TNext == TNew \/ TEval \/ TGet \/ TPack
TSpec == TInit /\ [][TNext]_l
=============================================================================
