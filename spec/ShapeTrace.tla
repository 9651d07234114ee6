----------------------------- MODULE ShapeTrace -----------------------------
(* Recorded answers of the real shape functions, walks and broadcast          *)
(* evaluations.                                                               *)
EXTENDS Shape, TraceUtil
VARIABLES l
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == l = 1
TNew == Is("init")
TPair == /\ Is("P")
         /\ Eq("common", Rec.ab, Common(Rec.a, Rec.b)) /\ Eq("common swapped", Rec.ba, Common(Rec.a, Rec.b))
         /\ Eq("can assign", Rec.can, CanAssign(Rec.a, Rec.b)) /\ Eq("can assign back", Rec.canb, CanAssign(Rec.b, Rec.a))
         /\ Eq("same layout", Rec.same, SameLayout(Rec.a, Rec.b))
         /\ (Len(Rec.a) = Len(Rec.b) /\ Len(Rec.a) > 0 =>
               /\ Eq("add", Rec.add, Zip(AddInf, Rec.a, Rec.b))
               /\ Eq("min", Rec.min, Zip(MinI, Rec.a, Rec.b))
               /\ Eq("ge", Rec.ge, \A i \in 1..Len(Rec.a) : Rec.a[i] >= Rec.b[i])
               /\ Eq("le", Rec.le, \A i \in 1..Len(Rec.a) : Rec.a[i] <= Rec.b[i])
               /\ Eq("addu", Rec.addu, Zip(LAMBDA x, y : IF x # Inf /\ y # Inf /\ (x = 0 \/ y = 0) THEN 0 ELSE AddInf(x, y), Rec.a, Rec.b))
               /\ Eq("sub", Rec.sub, Zip(SubInf, Zip(MaxI, Rec.a, Rec.b), Rec.b))
               /\ Eq("subu", Rec.subu, Zip(LAMBDA x, y : IF x # Inf /\ y # Inf /\ (x = 0 \/ y = 0) THEN 0 ELSE SubInf(x, y), Zip(MaxI, Rec.a, Rec.b), Rec.b)))
TTriple == /\ Is("T")
           /\ Eq("left", CombinationOk(<<Rec.a, Rec.b, Rec.c>>, Rec.left), TRUE)
           /\ Eq("right", CombinationOk(<<Rec.a, Rec.b, Rec.c>>, Rec.right), TRUE)
           /\ Eq("all", CombinationOk(<<Rec.a, Rec.b, Rec.c>>, Rec.all), TRUE)
TSingle == /\ Is("S")
           /\ LET s == Rec.s n == Len(Rec.s) IN
              /\ Eq("product", Rec.product, Prod(s)) /\ Eq("size", Rec.size, Prod(s)) /\ Eq("dyn product", Rec.dprod, Prod(s))
              /\ Eq("strides", Rec.c, StridesC(s, Rec.u)) /\ Eq("fortran strides", Rec.f, StridesF(s, Rec.u))
              /\ Eq("transpose", Rec.t, Reverse(s)) /\ Eq("rotl", Rec.rl, RotL(s)) /\ Eq("rotr", Rec.rr, RotR(s))
              /\ Eq("dyn rotl", Rec.drl, RotL(s)) /\ Eq("dyn rotr", Rec.drr, RotR(s))
              /\ Eq("back", Rec.rb, SubSeq(s, 1, n - 1)) /\ Eq("front", Rec.rf, Tail(s))
              /\ Eq("dyn back", Rec.drb, SubSeq(s, 1, n - 1)) /\ Eq("dyn front", Rec.drf, Tail(s))
              /\ Eq("zeros", Rec.tz, Trailing(s)) /\ Eq("inf", Rec.inf, FALSE)
              /\ Eq("mask", Rec.mask, [i \in 1..16 |-> IF i <= 16 - n THEN 0 ELSE IF s[i - (16 - n)] = 1 THEN 0 ELSE -1])
              /\ Eq("extend", Rec.ext, <<Inf, Inf>> \o s) /\ Eq("trim", Rec.trim, [k \in 1..(n + 1) |-> SubSeq(s, n - k + 2, n)])
              /\ Eq("add last", Rec.addlast, [s EXCEPT ![n] = @ + Rec.u])
              /\ Eq("dot", Rec.dot, LET RECURSIVE D(_) D(i) == IF i = 0 THEN 0 ELSE s[i] * StridesC(s, Rec.u)[i] + D(i - 1) IN D(n))
              /\ Eq("sum", Rec.sum, LET RECURSIVE D(_) D(i) == IF i = 0 THEN 0 ELSE s[i] + D(i - 1) IN D(n))
TFlat == /\ Is("F")
         /\ Len(Rec.idx) = Prod(Rec.s) /\ Len(Rec.flat) = Prod(Rec.s)
         /\ \A k \in 1..Prod(Rec.s) : Eq("from_flat", Rec.idx[k], FromFlat(Rec.s, k - 1)) /\ Eq("to_flat", Rec.flat[k], k - 1)
\* the whole walk: every step is the odometer's, and it ends where the odometer ends
TIter == /\ Is("I")
         /\ LET d == Rec.dim + 1 IN
            /\ Len(Rec.walk) >= 1 /\ Eq("first", Rec.walk[1], Rec.start)
            /\ \A k \in 1..(Len(Rec.walk) - 1) : Eq("next", Rec.walk[k + 1], Succ(Rec.walk[k], Rec.start, Rec.stop, d))
            /\ Eq("last", Succ(Rec.walk[Len(Rec.walk)], Rec.start, Rec.stop, d), <<>>)
            /\ Eq("null", Rec.null, TRUE)
            /\ \A k \in 1..Len(Rec.cmp) : Eq("inside", Rec.cmp[k], \A i \in 1..d : Rec.walk[k][i] < Rec.stop[i])
Cell(sh, unit, ix) == unit * (1 + ToFlat(sh, Proj(sh, ix)))
TEval == /\ Is("E")
         /\ LET r == CommonAll(<<Rec.a, Rec.b, Rec.c>>) IN
            /\ Eq("shape", Rec.shape, r)
            /\ Eq("values", Rec.vals, [k \in 1..Prod(r) |-> LET ix == FromFlat(r, k - 1) IN
                  Cell(Rec.a, 1, ix) + Cell(Rec.b, 100, ix) + Cell(Rec.c, 10000, ix) + Rec.scalar + (IF Rec.count THEN ix[Len(ix)] ELSE 0)])
TNext == TNew \/ TPair \/ TTriple \/ TSingle \/ TFlat \/ TIter \/ TEval
TSpec == TInit /\ [][TNext]_l
=============================================================================
