------------------------------ MODULE DftTrace ------------------------------
EXTENDS Dft, TraceUtil
VARIABLE l
tvars == <<vars0, l>>
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == kind = "c" /\ shape = <<1>> /\ buf = [b \in Bufs |-> Unknown] /\ l = 1
TNew == Is("init") /\ Create(Rec.kind, Rec.shape)
TLoad == Is("load") /\ Load(Rec.b, Rec.dom, Rec.v)
\* a transform: result known exactly, nothing outside the output (and the advertised temporary memory) written,
\* a separate input unchanged
TExec ==
  /\ Is("exec") /\ Exec(Rec.dir, Rec.dst, Rec.src)
  /\ Eq("domain/power", <<Rec.dom, Rec.pow>>, <<buf'[Rec.dst].dom, buf'[Rec.dst].pow>>)
  /\ Eq("guards", Rec.ok, TRUE)
  /\ Eq("source unchanged", Rec.same, TRUE)
  \* long spectra are not projected back by the harness (their inverse transform is)
  /\ IF Rec.skip THEN Rec.dom = "f" /\ Prod(shape) > 2048 ELSE Eq("result", Rec.v, buf'[Rec.dst].v)
\* an impulse: runs <<first slot, length, index, step>> have to tile 0..n-1 and follow the rule
N0 == Rec.n
Tiles(rs, first, n) == /\ IF Len(rs) = 0 THEN n = first ELSE rs[1][1] = first
                       /\ \A i \in 1..Len(rs) : rs[i][2] >= 1 /\ (IF i < Len(rs) THEN rs[i + 1][1] ELSE n) = rs[i][1] + rs[i][2]
\* slots of a half spectrum -> flat position in the full spectrum
SlotPos(k) == IF kind = "c" THEN k
              ELSE LET h == [shape EXCEPT ![Len(shape)] = shape[Len(shape)] \div 2 + 1] IN Flat(shape, Coord(h, k))
RunOK(r) ==
  LET P == Prod(shape)  M == 4 * P
      want(k) == RootIndex(shape, Rec.dir, Rec.p, Rec.q, SlotPos(k)) IN
  IF Len(shape) = 1
  THEN want(r[1]) = r[3] /\ (r[2] = 1 \/ r[4] % M = (want(r[1] + 1) - want(r[1])) % M)
  ELSE \A j \in 0..r[2]-1 : (r[3] + j * r[4]) % M = want(r[1] + j)
TImp ==
  /\ Is("imp") /\ UNCHANGED vars0
  /\ Eq("guards", Rec.ok, TRUE)
  /\ Eq("same", Rec.same, TRUE)
  \* packed format: slot 0 holds the real DC and middle bins
  /\ IF Rec.fmt = "Perm" THEN Eq("packed", Rec.dc, <<1, IF Rec.p % 2 = 0 THEN 1 ELSE -1>>) ELSE TRUE
  /\ IF Tiles(Rec.runs, IF Rec.fmt = "Perm" THEN 1 ELSE 0, Rec.n) THEN TRUE ELSE PrintT(<<"EXPECT", "tiling">>) /\ FALSE
  /\ Eq("slots", Rec.n, IF kind = "c" THEN Prod(shape)
                        ELSE IF Rec.fmt = "Perm" THEN shape[1] \div 2
                        ELSE (Prod(shape) \div shape[Len(shape)]) * (shape[Len(shape)] \div 2 + 1))
  /\ \A i \in DOMAIN Rec.runs : IF RunOK(Rec.runs[i]) THEN TRUE ELSE PrintT(<<"EXPECT", "root index", RootIndex(shape, Rec.dir, Rec.p, Rec.q, SlotPos(Rec.runs[i][1])), "GOT", Rec.runs[i]>>) /\ FALSE
TDisp == Is("disp") /\ UNCHANGED vars0 /\ \A i \in DOMAIN Rec.d : LET d == Rec.d[i] IN
            IF SafeDisposition(d[1], d[2], d[3] = 1, d[4]) THEN TRUE ELSE PrintT(<<"EXPECT", "safe disposition", "GOT", d>>) /\ FALSE
TNext == TNew \/ TLoad \/ TExec \/ TImp \/ TDisp
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
