------------------------------ MODULE CapiTrace ------------------------------
(* Recorded histories of calls of the C functions.                            *)
EXTENDS Capi, TraceUtil
VARIABLES l
tvars == <<o, err, l>>
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == o = <<>> /\ err = FALSE /\ l = 1
TBegin == Is("init") /\ o' = <<>> /\ err' = FALSE /\ Eq("error", Rec.err, FALSE)
Err == Eq("error message", Rec.err, err')
Sound == Err /\ Eq("equal to C++", Rec.same, TRUE) /\ Eq("guards", Rec.ok, TRUE)
TEnd == Is("end") /\ Eq("not returned", Rec.left, 0) /\ UNCHANGED cvars
TNew == /\ Is("new")
        /\ IF Rec.fail = 0 THEN Eq("refused", Rec.isnull, ~ValidArgs(Rec.kind, Rec.null, Rec.p)) /\ Make(Rec.slot, Rec.kind, Rec.null, Rec.p, Rec.x)
           ELSE IF Rec.isnull THEN Fail(Rec.slot) ELSE Eq("refused", FALSE, ~ValidArgs(Rec.kind, Rec.null, Rec.p)) /\ Make(Rec.slot, Rec.kind, Rec.null, Rec.p, Rec.x)
        /\ (Rec.isnull => Eq("left behind", Rec.leak, 0)) /\ Eq("same message as without history", Rec.text, TRUE) /\ Err
TDelete == Is("del") /\ Delete(Rec.slot) /\ Err
TQuery == Is("query") /\ Eq("size", Rec.size, Elements(Rec.slot)) /\ Used /\ Sound
\* a unit impulse: every output is the root of unity (cosine) of this index
Y == o[Rec.slot]
Half(sh) == [sh EXCEPT ![Len(sh)] = sh[Len(sh)] \div 2 + 1]
Position(k) == IF Y.k \in RealData /\ Len(Y.sh) > 1 THEN D!Flat(Y.sh, D!Coord(Half(Y.sh), k)) ELSE k
Slots == IF Y.k \notin RealData THEN D!Prod(Y.sh) ELSE IF Rec.packed THEN Y.sh[1] \div 2 ELSE D!Prod(Half(Y.sh))
Spectrum == [k \in 1..Slots |->
  IF Y.k = "dct" THEN K!CosIndex(Y.sh[1], Rec.dir, Rec.p, k - 1)
  ELSE IF Rec.packed /\ k = 1 THEN IF Rec.p % 2 = 0 THEN 1 ELSE -1    \* the middle bin, stored with the first one
  ELSE D!RootIndex(Y.sh, Rec.dir, Rec.p, Rec.q, Position(k - 1))]
TImpulse == /\ Is("imp") /\ Eq("packed", Rec.packed, Y.k = "real" /\ Y.x = 0)
            /\ Eq("result", Rec.out, Spectrum) /\ Used /\ Sound
\* forward and back again; the harness divides by the number of elements (half of it for the cosine transform)
TRound == Is("round") /\ Eq("result", Rec.out, Rec.v) /\ Used /\ Sound
TProcess == Is("proc") /\ Eq("result", Rec.out, Feed(Y, Rec.b).out) /\ Process(Rec.slot, Rec.b) /\ Sound
TReset == Is("reset") /\ Reset(Rec.slot) /\ Sound
TThread == Is("thread") /\ Eq("fresh", Rec.fresh, FALSE) /\ Eq("there", Rec.there, TRUE) /\ UNCHANGED cvars /\ Err
TNext == TBegin \/ TEnd \/ TNew \/ TDelete \/ TQuery \/ TImpulse \/ TRound \/ TProcess \/ TReset \/ TThread
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
