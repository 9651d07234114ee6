------------------------------- MODULE MCConv -------------------------------
(* The partitioned overlap-add convolution the library uses, checked         *)
(* exhaustively against Fir.  Spectra are represented by the (zero padded)   *)
(* blocks they are transforms of; a product of spectra is their circular     *)
(* convolution of length 2B.  One action per call; a call iterates over      *)
(* parts that end at a block border.  ClearSaved: at a block border the      *)
(* partial-block buffer is cleared when a shorter part follows in the same   *)
(* call (an optimisation: it must not matter, both values are checked).      *)
EXTENDS Fir
CONSTANTS Values, IRs, BlockSizes, MaxFeed, MaxHist, ClearSaved
VARIABLES B, segs, pos, saved, ipos, premul, overlap, hist, got
vars == <<f, B, segs, pos, saved, ipos, premul, overlap, hist, got>>
IRC == {<<2>>, <<1, -1>>, <<1, 0, 3>>, <<1, 2, -1, 1>>, <<0, 0, 0, 0, 2>>}
ValC == {1, -2}
T == f[1].taps
NSeg == CeilDiv(Len(T), B)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
Part(j) == [i \in 1..(2 * B) |-> IF i <= B THEN At(T, j * B + i) ELSE 0]      \* ir_segments[j], zero padded
Pad(s) == [i \in 1..(2 * B) |-> At(s, i)]
Circ(a, b) == Force([i \in 1..(2 * B) |-> FoldLeftDomain(LAMBDA acc, k : acc + a[k] * b[((i - k) % (2 * B)) + 1], 0, a)])
Add2(a, b) == Force([i \in 1..Len(a) |-> a[i] + b[i]])
ZeroB == Zeros(B)
Zero2B == Zeros(2 * B)
\* st: the machine state during a call
Iterate(st, blk) ==
  LET p == NumMin(Len(blk) - st.done, B - st.ipos)
      part == SubSeq(blk, st.done + 1, st.done + p)
      saved1 == IF p = B THEN st.saved ELSE Force([i \in 1..B |-> IF i > st.ipos /\ i <= st.ipos + p THEN part[i - st.ipos] ELSE st.saved[i]])
      segs1 == [st.segs EXCEPT ![st.pos + 1] = Pad(IF p = B THEN part ELSE saved1)]
      premul1 == IF NSeg > 1 /\ st.ipos = 0
                 THEN FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN acc ELSE Add2(acc, Circ(Part(i - 1), segs1[((st.pos + i - 1) % NSeg) + 1])), Zero2B, segs1)
                 ELSE st.premul
      y == IF NSeg = 1 THEN Circ(Part(0), segs1[1]) ELSE Add2(premul1, Circ(Part(0), segs1[st.pos + 1]))
      out == [i \in 1..p |-> y[st.ipos + i] + st.overlap[st.ipos + i]]
      full == st.ipos + p = B
      remaining == Len(blk) - st.done - p IN
  [done |-> st.done + p, segs |-> segs1, premul |-> premul1, out |-> st.out \o out,
   ipos |-> IF full THEN 0 ELSE st.ipos + p,
   saved |-> IF full /\ ClearSaved /\ remaining < B /\ remaining > 0 THEN ZeroB ELSE saved1,
   overlap |-> IF full THEN SubSeq(y, B + 1, 2 * B) ELSE st.overlap,
   pos |-> IF full THEN (IF st.pos > 0 THEN st.pos - 1 ELSE NSeg - 1) ELSE st.pos]
RECURSIVE Run(_, _)
Run(st, blk) == IF st.done = Len(blk) THEN st ELSE Run(Iterate(st, blk), blk)
Blocks == UNION {[1..n -> Values] : n \in 0..MaxFeed}
Init == /\ B \in BlockSizes
        /\ \E t \in IRs : f = <<Fresh(t, 1)>>
        /\ segs = [j \in 1..CeilDiv(Len(T), B) |-> Zeros(2 * B)]
        /\ pos = 0 /\ saved = Zeros(B) /\ ipos = 0 /\ premul = Zeros(2 * B) /\ overlap = Zeros(B)
        /\ hist = <<>> /\ got = <<>>
DoFeed == \E b \in Blocks :
  /\ Len(hist) + Len(b) <= MaxHist
  /\ LET r == Run([done |-> 0, segs |-> segs, premul |-> premul, out |-> <<>>, ipos |-> ipos, saved |-> saved, overlap |-> overlap, pos |-> pos], b) IN
       /\ segs' = r.segs /\ premul' = r.premul /\ ipos' = r.ipos /\ saved' = r.saved /\ overlap' = r.overlap /\ pos' = r.pos
       /\ got' = got \o r.out
       /\ r.out = FeedOut(1, <<b>>)[1]        \* refinement of Fir, step by step
  /\ hist' = hist \o b /\ Feed(1, <<b>>) /\ UNCHANGED B
\* every call the specification allows must be possible: a refused call shows as a deadlock of Refuse
Refused == \E b \in Blocks : Len(hist) + Len(b) <= MaxHist /\
  Run([done |-> 0, segs |-> segs, premul |-> premul, out |-> <<>>, ipos |-> ipos, saved |-> saved, overlap |-> overlap, pos |-> pos], b).out # FeedOut(1, <<b>>)[1]
DoReset == /\ segs' = [j \in 1..NSeg |-> Zero2B] /\ pos' = 0 /\ saved' = ZeroB /\ ipos' = 0 /\ overlap' = ZeroB
           /\ UNCHANGED <<premul, B>> /\ Reset(1) /\ hist' = <<>> /\ got' = <<>>
Next == DoFeed \/ DoReset
Spec == Init /\ [][Next]_vars
NeverRefused == ~Refused
=============================================================================
