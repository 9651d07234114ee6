------------------------------ MODULE DctTrace ------------------------------
EXTENDS Dct, TraceUtil
VARIABLE l
tvars == <<vars0, l>>
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == size = 1 /\ buf = [b \in Bufs |-> Unknown] /\ l = 1
TNew == Is("init") /\ Create(Rec.n)
TLoad == Is("load") /\ Load(Rec.b, Rec.dom, Rec.v)
TExec ==
  /\ Is("exec") /\ Exec(Rec.dir, Rec.dst, Rec.src)
  /\ Eq("domain/power", <<Rec.dom, Rec.pow>>, <<buf'[Rec.dst].dom, buf'[Rec.dst].pow>>)
  /\ Eq("guards", Rec.ok, TRUE)
  /\ Eq("source unchanged", Rec.same, TRUE)
  /\ Eq("result", Rec.v, buf'[Rec.dst].v)
TImp ==
  /\ Is("imp") /\ UNCHANGED vars0
  /\ Eq("guards", Rec.ok, TRUE)
  /\ Eq("source unchanged", Rec.same, TRUE)
  /\ Eq("halved", Rec.half, Halved(Rec.dir, Rec.p))
  /\ Eq("cosines", Rec.idx, [j \in 1..size |-> CosIndex(size, Rec.dir, Rec.p, j - 1)])
TNext == TNew \/ TLoad \/ TExec \/ TImp
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
