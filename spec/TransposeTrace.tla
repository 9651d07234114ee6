--------------------------- MODULE TransposeTrace ---------------------------
(* Recorded transpositions: the contents of the destination as runs           *)
(* <<position, first, step, count>> of the numbered source elements ("out"),  *)
(* or of the places where the source elements ended up ("in").                *)
EXTENDS Transpose, TraceUtil
VARIABLES l
Rec == Trace[l]
Is(e) == l <= Len(Trace) /\ Rec.ev = e /\ l' = l + 1
TInit == l = 1
TNew == Is("init")
Source(sh, k) == IF Len(sh) = 2 THEN (k % sh[1]) * sh[2] + (k \div sh[1]) ELSE TransposedAt(sh, k)
Covers(runs, total) == /\ (total = 0 => runs = <<>>) /\ (total > 0 => runs # <<>> /\ runs[1][1] = 0 /\ runs[Len(runs)][1] + runs[Len(runs)][4] = total)
                       /\ \A i \in 1..(Len(runs) - 1) : runs[i][1] + runs[i][4] = runs[i + 1][1]
RunOk(sh, r, mod) == \A i \in 0..(r[4] - 1) : (Source(sh, r[1] + i) % mod) = r[2] + i * r[3]
TMove == /\ Is("T")
         /\ LET sh == IF Rec.by = "out" THEN Rec.shape ELSE Reverse(Rec.shape) IN
            /\ Eq("every element once", Covers(Rec.runs, Prod(Rec.shape)), TRUE)
            /\ \A i \in 1..Len(Rec.runs) : Eq("run", RunOk(sh, Rec.runs[i], Rec.mod), TRUE) \/ (PrintT(Rec.runs[i]) /\ FALSE)
            /\ Eq("inside", Rec.ok, TRUE) /\ Eq("source kept", Rec.src, TRUE)
TBack == /\ Is("B") /\ Eq("inside", Rec.ok, TRUE)
         /\ Eq("every element once", Covers(Rec.runs, Prod(Rec.shape)), TRUE)
         /\ \A i \in 1..Len(Rec.runs) : LET r == Rec.runs[i] IN \A j \in 0..(r[4] - 1) : Eq("restored", r[2] + j * r[3], (r[1] + j) % Rec.mod)
TNext == TNew \/ TMove \/ TBack
TSpec == TInit /\ [][TNext]_l
=============================================================================
