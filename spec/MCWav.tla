-------------------------------- MODULE MCWav --------------------------------
(* Every small history of writes (with a device that may fill up), abnormal   *)
(* endings, and reads and seeks: nothing is invented, lost or reordered.      *)
EXTENDS Wav, TLC, FiniteSets
CONSTANTS MaxSteps, Caps, Chans
VARIABLES w, file, offered, r, got, done, cut, n
vars == <<w, file, offered, r, got, done, cut, n>>
Init == /\ \E c \in Chans, cap \in Caps : w = [ch |-> c, bps |-> 1, hdr |-> 3, cap |-> cap, bytes |-> 0, frames |-> 0]
        /\ file = <<>> /\ offered = 0 /\ r = <<>> /\ got = <<>> /\ done = FALSE /\ cut = 0 /\ n = 0
Frames(a, k) == [i \in 1..k |-> a + i]
\* frames are numbered in the order in which they are offered; a refused frame ends the recording
Write == /\ r = <<>> /\ \E s \in 0..5 :
              /\ file' = file \o Frames(offered, TakenFrames(w, s))
              /\ offered' = offered + (s \div w.ch) /\ w' = Written(w, s)
         /\ UNCHANGED <<r, got, done, cut>>
Open == /\ r = <<>> /\ \E d \in BOOLEAN, c \in 0..3 : c <= FileLen(w, d) /\ done' = d /\ cut' = c
              /\ r' = [total |-> Announced(w, d, c), have |-> Present(w, d, c), pos |-> 0]
        /\ got' = <<>> /\ UNCHANGED <<w, file, offered>>
Read == /\ r # <<>> /\ \E k \in 0..3 : r' = AfterRead(r, k) /\ got' = SubSeq(file, r.pos + 1, r.pos + GetFrames(r, k))
        /\ UNCHANGED <<w, file, offered, done, cut>>
Seek == /\ r # <<>> /\ \E off \in -3..3, o \in {"begin", "current", "end"} : r' = AfterSeek(r, off, o)
        /\ got' = <<>> /\ UNCHANGED <<w, file, offered, done, cut>>
Next == n < MaxSteps /\ n' = n + 1 /\ (Write \/ Open \/ Read \/ Seek)
Spec == Init /\ [][Next]_vars
Prefix == w.frames = Len(file) /\ \A i \in 1..Len(file) : file[i] = i
Fits == FileLen(w, TRUE) <= w.cap \/ ~Usable(w)
NotInvented == r # <<>> => /\ r.have <= Len(file) /\ r.have <= r.total /\ r.pos \in 0..r.total
                           /\ (done /\ cut = 0 => r.have = Len(file))
                           /\ (~done => r.have = 0)
Step == [][(r # <<>> /\ got' # <<>>) => /\ Len(got') = r'.pos - r.pos /\ \A i \in 1..Len(got') : got'[i] = r.pos + i]_vars
\* a reader that forgets to move on relative seeks
ForgetSeek(x, off, origin) == IF SeekOk(x, off, origin) /\ origin # "end" THEN [x EXCEPT !.pos = off] ELSE x
=============================================================================
