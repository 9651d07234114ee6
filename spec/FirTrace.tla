------------------------------ MODULE FirTrace ------------------------------
(* Recorded executions of the real FIR filters as behaviours of Fir.         *)
EXTENDS Fir, TraceUtil
VARIABLE l
tvars == <<f, l>>

Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1

TInit == f = <<>> /\ l = 1
TNew == Is("init") /\ f' = [o \in {1, 2} |-> Fresh(Rec.taps, Rec.planes)]
\* ok: nothing outside the destination was written and the source was left alone
TFeed == Is("feed") /\ Eq("ok", Rec.ok, TRUE) /\ Eq("out", Rec.out, FeedOut(Rec.o, Rec.in)) /\ Feed(Rec.o, Rec.in)
TReset == Is("reset") /\ Reset(Rec.o)
TTaps == Is("taps") /\ SetTaps(Rec.o, Rec.taps)
TCopy == Is("copy") /\ CopyTo(Rec.a, Rec.b)
\* one-shot full-length convolution of planes: real (1 plane) or complex (2 planes)
Full(a, b) == Force([i \in 1..(Len(a) + Len(b) - 1) |->
                FoldLeftDomain(LAMBDA acc, k : IF i - k + 1 >= 1 /\ i - k + 1 <= Len(b) THEN acc + a[k] * b[i - k + 1] ELSE acc, 0, a)])
AddS(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
SubS(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
FullPlanes(a, b) == IF Len(a) = 1 THEN <<Full(a[1], b[1])>>
                    ELSE <<SubS(Full(a[1], b[1]), Full(a[2], b[2])), AddS(Full(a[1], b[2]), Full(a[2], b[1]))>>
Rev(a) == [p \in 1..Len(a) |-> Force(Reverse(a[p]))]
TConv == Is("conv") /\ Eq("conv", Rec.out, FullPlanes(Rec.a, Rec.b)) /\ UNCHANGED f
TCorr == Is("corr") /\ Eq("corr", Rec.out, FullPlanes(Rec.a, Rev(Rec.b))) /\ UNCHANGED f
\* the second half of the full correlation of a sequence with itself, from lag zero on
TAuto == Is("auto") /\ Eq("auto", Rec.out,
            LET w == FullPlanes(Rec.a, Rev(Rec.a)) n == Len(Rec.a[1]) IN [p \in 1..Len(w) |-> SubSeq(w[p], n, 2 * n - 1)]) /\ UNCHANGED f
TNext == TConv \/ TCorr \/ TAuto \/ TNew \/ TFeed \/ TReset \/ TTaps \/ TCopy
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
