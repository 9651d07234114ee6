------------------------------ MODULE IirTrace ------------------------------
(* Recorded executions of the real cascades as behaviours of Iir.            *)
EXTENDS Iir, TraceUtil
VARIABLE l
tvars == <<c, l>>
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == c = <<>> /\ l = 1
TNew == Is("init") /\ c' = [o \in {1, 2} |-> Fresh(Rec.sec, Rec.lat)]
TFeed == Is("feed") /\ Eq("ok", Rec.ok, TRUE) /\ Eq("out", Rec.out, Result(Rec.o, Rec.in).out) /\ Feed(Rec.o, Rec.in)
TReset == Is("reset") /\ Reset(Rec.o)
TSet == Is("set") /\ SetSections(Rec.o, Rec.sec)
TCopy == Is("copy") /\ CopyTo(Rec.a, Rec.b)
TNext == TNew \/ TFeed \/ TReset \/ TSet \/ TCopy
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
