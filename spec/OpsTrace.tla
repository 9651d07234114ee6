------------------------------ MODULE OpsTrace ------------------------------
(* Recorded evaluations of the real history-carrying operators.              *)
(* Generators: g = <<kind, start, step>>, value at index k is Gen(g, k);     *)
(* ref segments compare a piecewise evaluation with the one-pass evaluation. *)
EXTENDS Ops, TraceUtil
VARIABLES l, g, pos, ref
tvars == <<p, l, g, pos, ref>>
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
\* sin(2 pi k / 12) * 1000
Sin12 == <<0, 500, 866, 1000, 866, 500, 0, -500, -866, -1000, -866, -500>>
S12(k) == Sin12[(k % 12) + 1]
C12(k) == S12(k + 3)
Gen(gg, k) ==
  CASE gg[1] = 0 -> <<gg[2] + k * gg[3]>>
    [] gg[1] = 1 -> <<2^(gg[2] + k * gg[3])>>
    [] gg[1] = 2 -> <<S12(gg[2] + k * gg[3])>>
    [] gg[1] = 3 -> <<C12(gg[2] + k * gg[3]), S12(gg[2] + k * gg[3])>>
    [] gg[1] = 4 -> <<IF k % 2 = 0 THEN C12(gg[2] + (k \div 2) * gg[3]) ELSE S12(gg[2] + (k \div 2) * gg[3])>>
    [] gg[1] = 5 -> <<gg[2] + k * gg[3]>>       \* counter
    [] gg[1] = 6 -> <<((gg[2] + k * gg[3]) % 64)>>   \* phasor in 64ths
TInit == p = <<>> /\ l = 1 /\ g = <<>> /\ pos = 0 /\ ref = <<>>
TNew == Is("init") /\ p' = [o \in {1, 2} |-> Fresh(Rec.stages)] /\ g' = Rec.gen /\ pos' = 0 /\ ref' = Rec.ref
TFeed == /\ Is("feed") /\ Eq("ok", Rec.ok, TRUE) /\ Eq("out", Rec.out, Result(Rec.o, Rec.in).out)
         /\ Feed(Rec.o, Rec.in) /\ UNCHANGED <<g, pos, ref>>
TRenew == Is("renew") /\ Renew(Rec.o) /\ UNCHANGED <<g, pos, ref>>
TCopy == Is("copy") /\ Copy(Rec.a, Rec.b) /\ UNCHANGED <<g, pos, ref>>
TGen == /\ Is("gen")
        /\ Eq("gen", Rec.out, FlattenSeq([i \in 1..Rec.n |-> Gen(g, pos + i - 1)]))
        /\ pos' = pos + Rec.n /\ UNCHANGED <<p, g, ref>>
TResync == Is("resync") /\ pos' = 0 /\ g' = [g EXCEPT ![2] = Rec.start] /\ UNCHANGED <<p, ref>>
\* piecewise evaluation equals the one-pass evaluation (quantised: neighbouring values allowed)
Close(a, b) == a - b \in -1..1
TRef == /\ Is("ref")
        /\ Rec.at = pos /\ pos + Len(Rec.out) <= Len(ref)
        /\ \A i \in 1..Len(Rec.out) : IF Close(Rec.out[i], ref[pos + i]) THEN TRUE ELSE Eq("ref", Rec.out[i], ref[pos + i])
        /\ pos' = pos + Len(Rec.out) /\ UNCHANGED <<p, g, ref>>
TNext == TNew \/ TFeed \/ TRenew \/ TCopy \/ TGen \/ TResync \/ TRef
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
