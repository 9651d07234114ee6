--------------------------- MODULE LockFreeTrace ----------------------------
EXTENDS LockFree, TraceUtil
VARIABLE l
tvars == <<cap, hist, vc, rel, acq, seen, cells, enq, deq, call, stale, l>>
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == MemInit({0, 1}, 1, -1) /\ cap = 1 /\ enq = <<>> /\ deq = 0 /\ call = <<None, None>> /\ stale = FALSE /\ l = 1
TNew == /\ Is("init") /\ cap' = Rec.cap /\ stale' = Rec.stale /\ enq' = <<>> /\ deq' = 0 /\ call' = <<None, None>>
        /\ hist' = [x \in 0..Rec.nvars-1 |-> <<[val |-> 0, clk |-> Zero, t |-> 0, at |-> 0]>>]
        /\ vc' = <<Zero, Zero>> /\ rel' = <<Zero, Zero>> /\ acq' = <<Zero, Zero>>
        /\ seen' = [t \in {1, 2} |-> [x \in 0..Rec.nvars-1 |-> 1]]
        /\ cells' = [i \in 0..Rec.cap-1 |-> [val |-> -1, wt |-> 0, w |-> 0, r |-> Zero]]
TCall == Is("call") /\ Invoke(Rec.th, Rec.op, Rec.n, Rec.partial, Rec.items) /\ UNCHANGED mvars
TLoad == Is("load") /\ Eq("val", Rec.val, Loaded(Rec.x, Rec.back)) /\ Load(Rec.th, Rec.x, Rec.back, Rec.mo) /\ UNCHANGED fvars
TStore == Is("store") /\ Store(Rec.th, Rec.x, Rec.val, Rec.mo) /\ UNCHANGED fvars
TFence == Is("fence") /\ Fence(Rec.th, Rec.mo) /\ UNCHANGED fvars
Span(at, n) == at..at+n-1
TWr == /\ Is("wr") /\ Eq("inside", Span(Rec.at, Len(Rec.vals)) \subseteq DOMAIN cells, TRUE)
       /\ Eq("write race", \A i \in Span(Rec.at, Len(Rec.vals)) : MayWrite(Rec.th, i), TRUE)
       /\ WriteCells(Rec.th, Rec.at, Rec.vals) /\ UNCHANGED fvars
TRd == /\ Is("rd") /\ Eq("inside", Span(Rec.at, Len(Rec.vals)) \subseteq DOMAIN cells, TRUE)
       /\ Eq("read race", \A i \in Span(Rec.at, Len(Rec.vals)) : MayRead(Rec.th, i), TRUE)
       /\ Eq("cells", Rec.vals, [i \in 1..Len(Rec.vals) |-> cells[Rec.at + i - 1].val])
       /\ ReadCells(Rec.th, Rec.at, Len(Rec.vals)) /\ UNCHANGED fvars
TRet == /\ Is("ret") /\ Eq("ok", Rec.ok, TRUE)
        /\ IF call[Rec.th].op = "enq" THEN EnqReturn(Rec.n)
           ELSE IF call[Rec.th].op = "deq" THEN Eq("count", Len(Rec.items), Rec.n) /\ DeqReturn(Rec.n, Rec.items)
           ELSE SizeReturn(Rec.th, Rec.n)
        /\ Eq("bounded", Bounded', TRUE) /\ UNCHANGED mvars
TNext == TNew \/ TCall \/ TLoad \/ TStore \/ TFence \/ TWr \/ TRd \/ TRet
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
