------------------------------ MODULE MemTrace -------------------------------
(* Recorded histories of the real allocator.                                  *)
EXTENDS Mem, TraceUtil
VARIABLES l
tvars == <<b, stats, l>>
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == Fresh /\ l = 1
TNew == Is("init") /\ Eq("left over", Rec.raw, 0) /\ b' = <<>> /\ stats' = <<0, 0, 0, 0>>
\* after every step: contents, separation, what was obtained underneath, bookkeeping
Health == /\ Eq("contents", Rec.intact, TRUE) /\ Eq("apart", Rec.apart, TRUE) /\ Eq("inside", Rec.inside, TRUE)
          /\ Eq("bad frees", Rec.bad, 0) /\ Eq("blocks underneath", Rec.raw, Cardinality(DOMAIN b'))
          /\ Eq("statistics", Rec.stats, stats')
Align == IF Rec.how = 1 THEN 64 ELSE Rec.align
Size == IF Rec.how = 2 THEN Rec.n ELSE IF Rec.n * Rec.elem > Align THEN Rec.n * Rec.elem ELSE Align
TAlloc == /\ Is("A")
          /\ IF Rec.fail = 1 \/ ~Valid(Rec.n, Align) THEN Eq("refused", Rec.null, TRUE) /\ Refuse
             ELSE /\ Eq("refused", Rec.null, FALSE) /\ Eq("aligned", Rec.aligned, TRUE) /\ Eq("size", Rec.size, Size)
                  /\ Obtain(Rec.id, Size)
          /\ Health
TRef == Is("R") /\ AddRef(Rec.id) /\ Health
TDrop == Is("D") /\ Release(Rec.id) /\ Health
TNull == Is("Z") /\ Refuse /\ Health
TRealloc ==
  /\ Is("X")
  /\ IF Rec.n = 0 THEN Eq("null", Rec.null, TRUE) /\ IF Rec.id = 0 THEN Refuse ELSE Release(Rec.id)
     ELSE IF Rec.fail = 1 \/ ~Valid(Rec.n, Rec.align) THEN Eq("refused", Rec.null, TRUE) /\ Refuse
     ELSE /\ Eq("refused", Rec.null, FALSE) /\ Eq("aligned", Rec.aligned, TRUE) /\ Eq("size", Rec.size, Rec.n) /\ Eq("kept", Rec.kept, TRUE)
          /\ IF Rec.id = 0 THEN Obtain(Rec.nid, Rec.n) ELSE Move(Rec.id, Rec.nid, Rec.n)
  /\ Health
\* scoped use: what was obtained has been returned
Scoped == /\ Eq("aligned", Rec.aligned, TRUE) /\ UNCHANGED b
          /\ Eq("returned", Rec.stats[1] - stats[1] = Rec.stats[3] - stats[3] /\ Rec.stats[2] - stats[2] = Rec.stats[4] - stats[4], TRUE)
          /\ stats' = Rec.stats /\ Health
TScoped == (Is("N") \/ Is("U") \/ Is("W")) /\ Scoped
TThreads == Is("T") /\ Eq("objects", Rec.objects, 0) /\ (IF Rec.last = 1 THEN Release(Rec.id) ELSE Refuse) /\ Health
TNext == TNew \/ TAlloc \/ TRef \/ TDrop \/ TNull \/ TRealloc \/ TScoped \/ TThreads
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
