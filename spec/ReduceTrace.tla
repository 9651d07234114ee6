---------------------------- MODULE ReduceTrace -----------------------------
(* Recorded reductions and histogram histories of the real code.              *)
EXTENDS Reduce, TraceUtil
VARIABLES l, acc, seen, h
vars == <<l, acc, seen, h>>
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == l = 1 /\ acc = <<>> /\ seen = <<>> /\ h = <<>>
Keep == UNCHANGED <<acc, seen, h>>
TNew == Is("init") /\ Keep
Dot(xs, ys) == NumSum([i \in 1..Len(xs) |-> xs[i] * ys[i]])
TRed == /\ Is("R") /\ Keep
        /\ LET xs == Rec.xs s == NumSum(xs) IN
           /\ Eq("sum", Rec.sum, s) /\ Eq("sumsqr", Rec.sumsqr, Fold("add", "sqr", xs)) /\ Eq("dotproduct", Rec.dot, Dot(xs, Rec.ys))
           /\ Len(xs) > 0 =>
              /\ Eq("minof", Rec.min, Fold("min", "id", xs)) /\ Eq("maxof", Rec.max, Fold("max", "id", xs))
              /\ Eq("absminof", Rec.amin, Fold("absmin", "id", xs)) /\ Eq("absmaxof", Rec.amax, Fold("absmax", "id", xs))
              /\ IF Rec.real THEN Eq("mean", Rec.mean, s) /\ Eq("rms", Rec.rms, Fold("add", "sqr", xs))
                 ELSE Eq("mean", Rec.mean, Trunc(s, Len(xs)))
TProd == Is("Q") /\ Keep /\ Eq("product", Rec.got, NumProd(Rec.xs))
THor == /\ Is("V") /\ Keep
        /\ LET xs == Rec.xs IN
           /\ Eq("hadd", Rec.add, NumSum(xs)) /\ Eq("hdot", Rec.dot, Dot(xs, Rec.ys))
           /\ Eq("hmin", Rec.min, Fold("min", "id", xs)) /\ Eq("hmax", Rec.max, Fold("max", "id", xs)) /\ Eq("hmul", Rec.mul, NumProd(Rec.ss))
           /\ Eq("havg", Rec.avg, IF Rec.real THEN NumSum(xs) ELSE Trunc(NumSum(xs), Len(xs)))
           /\ Rec.real => Eq("hrms", Rec.rms, Fold("add", "sqr", xs))
TBits == Is("B") /\ Keep /\ Eq("and", Rec.band, BitFold("band", Rec.xs)) /\ Eq("or", Rec.bor, BitFold("bor", Rec.xs)) /\ Eq("xor", Rec.bxor, BitFold("bxor", Rec.xs))
\* an accumulator object: every piece is folded in, whatever its width and position
TAcc == Is("acc") /\ acc' = NewAcc(Rec.op, 4) /\ seen' = Rec.xs /\ h' = h
TPiece == /\ Is("piece")
          /\ LET stop == NumMin(Rec.start + Rec.n, Len(seen))
                 xs == SubSeq(seen, Rec.start + 1, stop) IN
             /\ acc' = Put(Rec.op, Rec.tr, acc, xs)
             /\ Eq("stop", Rec.stop, stop)
             /\ Eq("result", Rec.got, NumMax(Rec.low, Horizontal(Rec.op, acc')))  \* the least value of the type
          /\ UNCHANGED <<seen, h>>
\* histograms
THist == Is("hist") /\ h' = NewHist(Rec.k) /\ Eq("cells", Rec.cells, h') /\ Eq("total", Rec.total, 0) /\ UNCHANGED <<acc, seen>>
TPut == /\ Is("put") /\ h' = Force(Count(Rec.kind, h, Rec.xs))
        /\ Eq("cells", Rec.cells, h') /\ Eq("total", Rec.total, NumSum(h')) /\ UNCHANGED <<acc, seen>>
\* a sample that is not a number belongs to no bin in particular, but is counted once and nowhere else
TNan == /\ Is("nan") /\ h' = Rec.cells /\ Eq("nan counted once", \E c \in 1..Len(h) : Rec.cells = [h EXCEPT ![c] = @ + 1], TRUE)
        /\ Eq("total", Rec.total, NumSum(h')) /\ UNCHANGED <<acc, seen>>
TNext == TNew \/ TRed \/ TProd \/ THor \/ TBits \/ TAcc \/ TPiece \/ THist \/ TPut \/ TNan
TSpec == TInit /\ [][TNext]_vars
=============================================================================
