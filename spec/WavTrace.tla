------------------------------ MODULE WavTrace -------------------------------
EXTENDS Wav, TraceUtil
VARIABLES l, w, c, f, r
vars == <<l, w, c, f, r>>
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
\* the k-th sample ever offered to a writer
Code(k) == ((k * 7919 + 13) % 65535) - 32767
Bps(t) == CASE t = "i8" -> 1 [] t = "i16" -> 2 [] t = "i24" -> 3 [] t \in {"i32", "f32"} -> 4 [] OTHER -> 8
None == [kind |-> "none"]
TInit == l = 1 /\ w = None /\ c = <<>> /\ f = None /\ r = None
TNew == Is("init") /\ w' = None /\ c' = <<>> /\ f' = None /\ r' = None
\* tolerance in 16-bit steps after conversions between types
Tol1(a, b) == IF a = b THEN 0 ELSE IF a = "i8" \/ b = "i8" THEN 260 ELSE 2
Abs(x) == IF x < 0 THEN -x ELSE x
Near(what, got, want, tol) == IF Len(got) = Len(want) /\ \A i \in 1..Len(got) : Abs(got[i] - want[i]) <= tol THEN TRUE
                              ELSE PrintT(<<"EXPECT", what, want, "TOL", tol, "GOT", got>>) /\ FALSE
TCreate == /\ Is("N") /\ w' = [kind |-> "w", t |-> Rec.t, ft |-> Rec.ft, rate |-> Rec.rate, open |-> TRUE, off |-> 0, ch |-> Rec.ch, bps |-> Bps(Rec.ft),
                               hdr |-> IF Rec.w64 = 1 THEN 104 ELSE 44, cap |-> Rec.cap, bytes |-> 0, frames |-> 0]
           /\ c' = <<>> /\ UNCHANGED <<f, r>> /\ Eq("length", Rec.len, 0)
\* n samples offered, in one buffer or as channels
TWrite == /\ Is("W")
          /\ LET k == TakenFrames(w, Rec.n) IN
             /\ w' = [Written(w, Rec.n) EXCEPT !.off = @ + Rec.n]
             /\ c' = c \o [i \in 1..(k * w.ch) |-> Code(w.off + i)]
             /\ Eq("accepted", Rec.ret, k * w.ch) /\ Eq("length", Rec.len, w'.frames) /\ Eq("tell", Rec.tell, w'.frames) /\ Eq("inside", Rec.ok, TRUE)
          /\ UNCHANGED <<f, r>>
TEnd == /\ Is("E")
        /\ LET d == Rec.kind # 2 cut == Min2(Rec.cut, FileLen(w, d)) IN
           /\ Eq("writes after close", Rec.late, 0)
           /\ Eq("file length", Rec.size, FileLen(w, d))
           /\ IF Usable(w) THEN
                /\ Eq("data size", Rec.data, IF d THEN w.bytes ELSE 0)
                /\ Eq("format", Rec.fmt, <<IF w.ft \in {"f32", "f64"} THEN 3 ELSE 1, w.ch, w.rate, w.rate * Bpf(w), Bpf(w), 8 * w.bps>>)
                /\ Near("samples on the device", Rec.codes, c, Tol1(w.t, w.ft))
              ELSE TRUE
           /\ f' = [kind |-> "wav", t |-> w.t, ft |-> w.ft, ch |-> w.ch, rate |-> w.rate, ok |-> Readable(w, d, cut),
                    total |-> Announced(w, d, cut), have |-> Present(w, d, cut), tol |-> Tol1(w.t, w.ft)]
        /\ r' = None /\ w' = None /\ c' = c
TFlac == /\ Is("L") /\ c' = [i \in 1..(Rec.ch * Rec.n) |-> Code(i)]
         /\ f' = [kind |-> "flac", t |-> "i32", ft |-> "i32", ch |-> Rec.ch, rate |-> 44100, ok |-> Rec.good, total |-> IF Rec.good THEN Rec.n ELSE 0, have |-> IF Rec.good THEN Rec.whole ELSE 0, tol |-> 0]
         /\ r' = None /\ w' = None
TMp3 == /\ Is("M") /\ c' = <<>>
        /\ f' = [kind |-> "mp3", t |-> "i16", ft |-> "i16", ch |-> 2, rate |-> 44100, ok |-> Rec.good, total |-> IF Rec.good THEN Rec.n ELSE 0, have |-> IF Rec.good THEN Rec.n ELSE 0, tol |-> 0]
        /\ r' = None /\ w' = None
TOpen == /\ Is("O") /\ r' = [t |-> Rec.t, total |-> f.total, have |-> f.have, pos |-> 0] /\ UNCHANGED <<w, c, f>>
         /\ Eq("length", Rec.len, f.total) /\ Eq("tell", Rec.tell, 0)
         /\ IF f.ok THEN Eq("format", <<Rec.ch, Rec.ft, Rec.rate>>, <<f.ch, f.ft, f.rate>>) ELSE Eq("format", Rec.ft, "unknown")
\* a read of k frames: its length, the samples and the position after it
Got(k) == LET m == GetFrames(r, k) IN
  /\ Eq("frames", Rec.ret, m * f.ch) /\ Eq("tell", Rec.tell, r.pos + m) /\ Eq("inside", Rec.ok, TRUE)
  /\ IF f.kind = "mp3" THEN Eq("same samples", Rec.same, TRUE)
     ELSE Near("samples", Rec.codes, SubSeq(c, r.pos * f.ch + 1, (r.pos + m) * f.ch), f.tol + Tol1(f.ft, r.t))
  /\ r' = AfterRead(r, k)
TRead == Is("R") /\ UNCHANGED <<w, c, f>> /\ (IF f.ok THEN Got(Rec.n \div f.ch) ELSE Eq("nothing", <<Rec.ret, Rec.tell, Rec.codes>>, <<0, 0, <<>>>>) /\ r' = r)
TSeek == /\ Is("S") /\ UNCHANGED <<w, c, f>> /\ r' = AfterSeek(r, Rec.off, Rec.origin)
         /\ (f.ok => Eq("found", Rec.ret, SeekOk(r, Rec.off, Rec.origin))) /\ Eq("tell", Rec.tell, r'.pos)
TNext == TNew \/ TCreate \/ TWrite \/ TEnd \/ TFlac \/ TMp3 \/ TOpen \/ TRead \/ TSeek
TSpec == TInit /\ [][TNext]_vars
=============================================================================
