--------------------------- MODULE DispatchTrace -----------------------------
EXTENDS Dispatch, TraceUtil
VARIABLES l
tvars == <<en, sel, o, l>>
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == en = {} /\ sel = 0 /\ o = <<>> /\ l = 1
TBegin == Is("init") /\ en' = {Rec.en[i] : i \in DOMAIN Rec.en} /\ sel' = Rec.sel /\ o' = <<>>
Ran(may) == IF {Rec.ran[i] : i \in DOMAIN Rec.ran} \subseteq may THEN TRUE
            ELSE PrintT(<<"EXPECT", "instruction sets", may, "GOT", Rec.ran, "selected", sel>>) /\ FALSE
TSel == Is("sel") /\ Eq("previous selection", Rec.was, sel) /\ Eq("selection", Rec.now, Rec.to) /\ Select(Rec.to)
TDetect == /\ Is("detect") /\ UNCHANGED dvars
           /\ LET f == {Rec.f[i] : i \in DOMAIN Rec.f} IN
              \/ Rec.cpu = -1   \* CPUID cannot be trapped here
              \/ /\ IF Rec.cpu \in Supported(f) THEN TRUE ELSE PrintT(<<"EXPECT", "supported selection", Supported(f), "GOT", Rec.cpu>>) /\ FALSE
                 /\ Orderly(f) => Eq("the best supported", Rec.cpu, Best(f))
TMake == Is("make") /\ Ran(MayRunNow) /\ Make(Rec.id, Rec.kind, Rec.p)
TPut == /\ Is("put") /\ Ran(MayRun(Rec.id))
        /\ CASE o[Rec.id].kind = "src" -> Eq("output", Rec.out, Rec.twin) /\ Eq("consumed", Rec.used, Rec.tused) /\ UNCHANGED dvars
             [] o[Rec.id].kind = "transform" -> /\ Eq("round trip", Rec.out, [i \in DOMAIN Rec.out |-> At(Rec.x, i)]) /\ Eq("same as on the lowest", Rec.same, TRUE)
                                                /\ UNCHANGED dvars
             [] OTHER -> Feed(Rec.id, Rec.x) /\ Eq("output", Rec.out, Output(o'[Rec.id], Len(Rec.x)))
TReset == Is("reset") /\ Ran(MayRun(Rec.id)) /\ Restart(Rec.id)
TDrop == Is("drop") /\ Ran(MayRun(Rec.id)) /\ Drop(Rec.id)
TOnce == Is("once") /\ Ran(MayRunNow) /\ UNCHANGED dvars
         /\ Eq("result", Rec.out, Convolution(Rec.a, IF Rec.corr THEN Reverse(Rec.b) ELSE Rec.b))
TNext == TBegin \/ TSel \/ TDetect \/ TMake \/ TPut \/ TReset \/ TDrop \/ TOnce
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
