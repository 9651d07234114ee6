------------------------------ MODULE RingTrace -----------------------------
EXTENDS Ring, TraceUtil
VARIABLE l
tvars == <<mem, cur, l>>
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == mem = <<0>> /\ cur = [c \in {1, 2} |-> 0] /\ l = 1
TNew == Is("init") /\ mem' = Rec.mem /\ cur' = [c \in {1, 2} |-> 0]
After == Eq("ok", Rec.ok, TRUE) /\ Eq("cursor", Rec.cur, cur'[Rec.c]) /\ Eq("mem", Rec.mem, mem')
TWrite == Is("write") /\ Write(Rec.c, Rec.in) /\ After
TRead == Is("read") /\ Eq("out", Rec.out, ReadOut(Rec.c, Rec.n)) /\ Read(Rec.c, Rec.n) /\ After
TStep == Is("step") /\ Step(Rec.c, Rec.n) /\ After
TNext == TNew \/ TWrite \/ TRead \/ TStep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
