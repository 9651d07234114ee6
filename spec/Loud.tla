-------------------------------- MODULE Loud ---------------------------------
(* Loudness metering (ITU-R BS.1770, EBU R 128, Tech 3342) over packets.      *)
(* An energy is an integer in units of one level; channel weights are in      *)
(* seventeenths (24/17 = 1.5 dB for surrounds).  win holds the weighted       *)
(* energies of the last packets (newest last, fewer than S at the beginning:  *)
(* before the first packet there was silence), ml the energies of momentary   *)
(* blocks over the absolute gate, sl those of short-term ones.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES cf,    \* [sp: speaker of each channel, m, s: packets in the windows, gate: absolute gate in hundredths of a level]
          win, ms, ss, run, pend, ml, sl
lvars == <<cf, win, ms, ss, run, pend, ml, sl>>
Total(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* left and right surround count 1.5 dB more, low frequency channels do not count
Weight(sp) == CASE sp \in {4, 19} -> 0 [] sp \in {5, 6} -> 24 [] OTHER -> 17
Weighted(sps, es) == Total([i \in DOMAIN sps |-> Weight(sps[i]) * es[i]])
\* sum of a window of n packets with x added
Slide(w, sum, n, x) == sum + x - (IF Len(w) >= n THEN w[Len(w) - n + 1] ELSE 0)
GateOf(n) == (17 * n * cf.gate) \div 100
Open(x, n) == x > 0 /\ x >= GateOf(n)
Begin(c) == cf' = c /\ win' = <<>> /\ ms' = 0 /\ ss' = 0 /\ run' = TRUE /\ pend' = FALSE /\ ml' = <<>> /\ sl' = <<>>
\* what a packet is added to: nothing when a reset has been asked for
Base == IF pend THEN [win |-> <<>>, ms |-> 0, ss |-> 0, ml |-> <<>>, sl |-> <<>>]
        ELSE [win |-> win, ms |-> ms, ss |-> ss, ml |-> ml, sl |-> sl]
Packet(es) ==
  LET b == Base
      x == Weighted(cf.sp, es)
      m == Slide(b.win, b.ms, cf.m, x)
      s == Slide(b.win, b.ss, cf.s, x)
      w == Append(b.win, x) IN
  /\ win' = IF Len(w) > cf.s THEN Tail(w) ELSE w
  /\ ms' = m /\ ss' = s /\ pend' = FALSE
  /\ ml' = IF run /\ Open(m, cf.m) THEN Append(b.ml, m) ELSE b.ml
  /\ sl' = IF run /\ Open(s, cf.s) THEN Append(b.sl, s) ELSE b.sl
  /\ UNCHANGED <<cf, run>>
Reset == pend' = TRUE /\ UNCHANGED <<cf, win, ms, ss, run, ml, sl>>
Start == run' = TRUE /\ UNCHANGED <<cf, win, ms, ss, pend, ml, sl>>
Stop == run' = FALSE /\ UNCHANGED <<cf, win, ms, ss, pend, ml, sl>>

\* mean without overflow
Mean(s) == IF s = <<>> THEN 0 ELSE LET n == Len(s) IN FoldLeft(LAMBDA a, x : a + (x \div n), 0, s) + (FoldLeft(LAMBDA a, x : a + (x % n), 0, s) \div n)
\* blocks not more than 10 dB below the mean of all
Passed(s) == LET m == Mean(s) IN SelectSeq(s, LAMBDA x : 10 * x >= m)
Integrated(s) == Mean(Passed(s))
\* loudness range: between the 10th and the 95th percentile of what is not more than 20 dB below the mean
Floor20(s) == Mean(s) \div 100
Below(s, floor) == FoldLeft(LAMBDA a, x : IF x < floor THEN a + 1 ELSE a, 0, s)
\* positions (from 1): a half may be rounded either way
Round(a, b) == LET q == (2 * a + b) \div (2 * b) IN IF (2 * a) % (2 * b) = b THEN {q - 1, q} ELSE {q}
LowPlaces(n, k) == { k + 1 + j : j \in Round((n - 1 - k) * 10, 100) }
HighPlaces(n, k) == { k + 1 + j : j \in Round((n - 1 - k) * 95, 100) }
=============================================================================
