----------------------------- MODULE TensorTrace ----------------------------
EXTENDS Tensor, TraceUtil
VARIABLE l
tvars == <<mem, freed, slot, l>>
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == mem = <<>> /\ freed = <<>> /\ slot = [s \in 1..4 |-> None] /\ l = 1
TNew == Is("init") /\ mem' = <<>> /\ freed' = <<>> /\ slot' = [s \in 1..4 |-> None]
\* what the recorder saw afterwards: every storage still alive with its contents, and slot d
SeesMem == /\ Eq("guards", Rec.guards, TRUE)
           /\ Eq("storages", Len(Rec.mem), Len(mem'))
           /\ Eq("freed", Rec.freed, freed')
           /\ Eq("mem", Rec.mem, [st \in 1..Len(mem') |-> IF freed'[st] = 0 THEN mem'[st] ELSE <<>>])
SeesSlot(d) == LET v == slot'[d] IN
  IF v.st = 0 THEN Eq("empty", Rec.st, 0)
  ELSE /\ Eq("st", Rec.st, v.st) /\ Eq("shape", Rec.shape, v.sh) /\ Eq("size", Rec.size, Len(v.cells))
       /\ Eq("cells", Rec.cells, v.cells) /\ Eq("cells by iterator", Rec.iter, v.cells)
       /\ Eq("values by expression", Rec.vals, [k \in 1..Len(v.cells) |-> mem'[v.st][v.cells[k]]])
See(d) == SeesMem /\ SeesSlot(d)
Ok(b) == Eq("ok", Rec.ok, b)
TNewT == Is("N") /\ New(Rec.d, Rec.kind, Rec.sh, Rec.base) /\ See(Rec.d)
TSlice == Is("S") /\ Slice(Rec.d, Rec.s, Rec.its) /\ See(Rec.d)
TSub == Is("U") /\ Sub(Rec.d, Rec.s, Rec.a, Rec.b) /\ See(Rec.d)
TTrans == Is("T") /\ Transpose(Rec.d, Rec.s) /\ See(Rec.d)
TResh == Is("R") /\ (IF ~Rec.ok THEN ReshapeFail(Rec.d, Rec.s, Rec.sh)
                     ELSE IF Rec.shared THEN ReshapeShare(Rec.d, Rec.s, Rec.sh)
                     ELSE Rec.al = 1 /\ ReshapeCopy(Rec.d, Rec.s, Rec.sh))
         /\ (IF ~Rec.ok /\ Rec.al = 1 THEN Eq("size mismatch", Prod(Rec.sh) # Len(slot[Rec.s].cells), TRUE) ELSE TRUE)
         /\ See(Rec.d)
TCopy == Is("C") /\ Copy(Rec.d, Rec.s) /\ See(Rec.d)
TMap == Is("P") /\ Map(Rec.d, Rec.s, Rec.k) /\ See(Rec.d)
TZip == Is("Z") /\ Zip(Rec.d, Rec.a, Rec.b) /\ See(Rec.d)
TAssign == Is("A") /\ Assign(Rec.d, Rec.s) /\ See(Rec.d)
TMove == Is("M") /\ Move(Rec.d, Rec.s) /\ See(Rec.d)
TDrop == Is("D") /\ Drop(Rec.d) /\ See(Rec.d)
TNest == Is("X") /\ Nested(Rec.d, Rec.s, Rec.i) /\ See(Rec.d)
TWrite == Is("W") /\ WriteAt(Rec.d, Rec.ix, Rec.x) /\ See(Rec.d)
TFill == Is("L") /\ Fill(Rec.d, Rec.x) /\ See(Rec.d)
TNeg == Is("I") /\ Negate(Rec.d) /\ See(Rec.d)
TElem == Is("V") /\ (IF Rec.ok THEN AssignElems(Rec.d, Rec.s) ELSE AssignBad(Rec.d, Rec.s)) /\ See(Rec.d)
TExpr == Is("E") /\ Expr(Rec.d, Rec.a, Rec.b) /\ See(Rec.d)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
TEq == Is("Q") /\ Live(Rec.a) /\ Live(Rec.b)
       /\ Eq("equal", Rec.eq, slot[Rec.a].sh = slot[Rec.b].sh /\ Vals(slot[Rec.a]) = Vals(slot[Rec.b]))
       /\ Eq("reduce", Rec.sum, SumSeq(Vals(slot[Rec.a])))
       /\ Eq("visited", Rec.visited, [k \in 1..Len(slot[Rec.a].cells) |-> Unrank(slot[Rec.a].sh, k - 1)])
       /\ UNCHANGED tvs
TNext == TNew \/ TNewT \/ TSlice \/ TSub \/ TTrans \/ TResh \/ TCopy \/ TMap \/ TZip \/ TAssign \/ TMove \/ TDrop \/ TNest \/ TWrite \/ TFill
         \/ TNeg \/ TElem \/ TExpr \/ TEq
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
