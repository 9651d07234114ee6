------------------------------ MODULE VecTrace -------------------------------
EXTENDS Vec, TraceUtil
VARIABLES l, sg
tvars == <<m, l, sg>>
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == l = 1 /\ m = <<>> /\ sg = FALSE
TBegin == Is("init") /\ m' = Rec.m /\ sg' = Rec.signed
Same == UNCHANGED <<m, sg>>
TPerm == /\ Is("perm") /\ Same /\ Eq("done", Rec.done, TRUE)
         /\ LET w == PermOf(Rec.op, Rec.p, Rec.x, Rec.y, Rec.e) IN AgreesWith(Rec.r, w) \/ Eq("lanes", <<Rec.op, Rec.p, Rec.r>>, <<Rec.op, Rec.p, w>>)
Sorts(op) == op \in {"sort", "sortdesc"}
TInt == /\ Is("int") /\ Same
        /\ IF Sorts(Rec.op) THEN Eq("sorted", <<Rec.op, SortedBy(Rec.x, Rec.r, LAMBDA a, b : IF Rec.op = "sort" THEN LessB(a, b, sg) ELSE LessB(b, a, sg))>>, <<Rec.op, TRUE>>)
           ELSE LET s == IF Rec.op = "cast" THEN sg ELSE sg IN Eq("lanes", <<Rec.op, Rec.c, Rec.k, Rec.r>>, <<Rec.op, Rec.c, Rec.k, IntOp(Rec.op, Rec.c, s, Rec.k, Rec.x, Rec.y, Rec.z)>>)
TFlt == /\ Is("flt") /\ Same
        /\ IF Sorts(Rec.op) THEN Eq("sorted", <<Rec.op, SortedBy(Rec.x, Rec.r, LAMBDA a, b : IF Rec.op = "sort" THEN a < b ELSE b < a)>>, <<Rec.op, TRUE>>)
           ELSE Eq("lanes", <<Rec.op, Rec.c, Rec.k, Rec.r>>, <<Rec.op, Rec.c, Rec.k, FltOp(Rec.op, Rec.c, Rec.x, Rec.y, Rec.z)>>)
Loads == {"read", "ctor", "aread", "gather", "gstride", "gfix", "rgroup"}
TMem == /\ Is("mem") /\ UNCHANGED sg
        /\ LET n == Len(Rec.idx)  s == Places(Rec.op, Rec.off, n, Rec.g, Rec.stride, Rec.idx) IN
           /\ Eq("loaded", <<Rec.op, Rec.g, Rec.r>>, <<Rec.op, Rec.g, IF Rec.op \in Loads THEN Take(s) ELSE <<>> >>)
           /\ Store(Rec.op, s, Rec.val)
           /\ Eq("memory", <<Rec.op, Rec.m>>, <<Rec.op, m'>>)
TNext == TBegin \/ TPerm \/ TInt \/ TFlt \/ TMem
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
