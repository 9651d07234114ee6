-------------------------------- MODULE Fir ---------------------------------
(* A causal finite-impulse-response filter as a state machine.               *)
(*                                                                           *)
(* Used for: the direct-form filter and its expression forms, the short      *)
(* (vector-register) form and the partitioned FFT overlap-add filter - all   *)
(* of them promise the same observable behaviour: what comes out is the      *)
(* convolution of EVERYTHING fed since creation/reset with the taps, however *)
(* the feed is cut into blocks.                                              *)
(*                                                                           *)
(* Objects are numbered; each has its taps and, per plane (one plane for     *)
(* real samples, two for complex ones), the delay line: the last taps-1      *)
(* samples fed, oldest first.                                                *)
EXTENDS Integers, Sequences, SequencesExt, Num

VARIABLE f           \* object |-> [taps, line : Seq(Seq(Int))]

EmptyLine(t) == [i \in 1..(Len(t) - 1) |-> 0]
Fresh(t, planes) == [taps |-> t, line |-> [p \in 1..planes |-> EmptyLine(t)]]

\* output for one plane: ext = line \o block
Outputs(t, ext, n) == [i \in 1..n |-> ConvAt(t, ext, i + Len(t) - 1)]
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

\* feeding a block (one sequence per plane) to object o produces FeedOut and the new state FeedNext
Ext(o, blk) == [p \in 1..Len(blk) |-> f[o].line[p] \o blk[p]]
FeedOut(o, blk) == [p \in 1..Len(blk) |-> Outputs(f[o].taps, Ext(o, blk)[p], Len(blk[p]))]
FeedNext(o, blk) == [f EXCEPT ![o].line = [p \in 1..Len(blk) |-> LastN(Ext(o, blk)[p], Len(f[o].taps) - 1)]]

Feed(o, blk) == f' = FeedNext(o, blk)
Reset(o) == f' = [f EXCEPT ![o] = Fresh(@.taps, Len(@.line))]
SetTaps(o, t) == f' = [f EXCEPT ![o] = Fresh(t, Len(@.line))]
CopyTo(a, b) == f' = [f EXCEPT ![b] = f[a]]
=============================================================================
