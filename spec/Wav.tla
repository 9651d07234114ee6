--------------------------------- MODULE Wav ---------------------------------
(* An audio file as a device of bytes: a writer appends whole frames until it *)
(* is closed or abandoned, the device may be full or cut short, and readers   *)
(* move a position over the frames.                                           *)
EXTENDS Integers, Sequences
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
NoCap == 1000000000

(* ---- writer: w = [ch, bps (bytes per sample), hdr, cap, bytes (of data), frames] ---- *)
Bpf(w) == w.ch * w.bps
Usable(w) == w.cap >= w.hdr
Room(w) == w.cap - w.hdr - w.bytes
\* n samples are offered: only whole frames are taken, as many as fit
TakenBytes(w, n) == IF Usable(w) THEN Min2((n \div w.ch) * Bpf(w), Room(w)) ELSE 0
TakenFrames(w, n) == TakenBytes(w, n) \div Bpf(w)
Written(w, n) == [w EXCEPT !.bytes = @ + TakenBytes(w, n), !.frames = @ + TakenFrames(w, n)]
Align(w) == IF w.hdr = 44 THEN 2 ELSE 8
Padded(w) == Min2(((w.bytes + Align(w) - 1) \div Align(w)) * Align(w), w.cap - w.hdr)
\* what a reader of the file can know and get: the frames announced, and those actually there
FileLen(w, done) == IF Usable(w) THEN w.hdr + (IF done THEN Padded(w) ELSE w.bytes) ELSE w.cap
Announced(w, done, cut) == IF FileLen(w, done) - cut < w.hdr \/ ~done THEN 0 ELSE w.bytes \div Bpf(w)
Present(w, done, cut) == Min2(Announced(w, done, cut), Max2(0, FileLen(w, done) - cut - w.hdr) \div Bpf(w))
Readable(w, done, cut) == FileLen(w, done) - cut >= w.hdr

(* ---- reader: r = [total (announced frames), have (frames present), pos] ---- *)
GetFrames(r, k) == Max2(0, Min2(k, r.have - r.pos))
AfterRead(r, k) == [r EXCEPT !.pos = @ + GetFrames(r, k)]
Base(r, origin) == CASE origin = "begin" -> 0 [] origin = "end" -> r.total [] OTHER -> r.pos
Target(r, off, origin) == Base(r, origin) + off
SeekOk(r, off, origin) == Target(r, off, origin) \in 0..r.total
AfterSeek(r, off, origin) == IF SeekOk(r, off, origin) THEN [r EXCEPT !.pos = Target(r, off, origin)] ELSE r
=============================================================================
