------------------------------- MODULE MCIir --------------------------------
(* The pipelined evaluation the library uses, checked exhaustively against   *)
(* the difference equations of Iir: one lane per section, every step moves   *)
(* the cascade by one sample in each lane, a pass over a block starts with a *)
(* warm-up of F-1 input samples, reads F-1 samples ahead, drains with zeros, *)
(* and puts the lane state back to the point where exactly the block had     *)
(* been consumed.  ShortSave: the warm-up itself records that point when the *)
(* block is no longer than F-1 (without it the property fails - kept as a    *)
(* constant to show that the model can tell the difference).                 *)
EXTENDS Iir
CONSTANTS SectionSets, Values, MaxBlock, MaxHist, Width, ShortSave
VARIABLES lane, saved, hist, got
vars == <<c, lane, saved, hist, got>>
SecC == { <<<<-1, 0, 1, 0, 0>>>>,
          <<<<-1, 0, 1, 0, 0>>, <<0, 1, 1, 1, 0>>>>,
          <<<<0, 0, 0, 1, 0>>, <<1, 1, 1, 0, -1>>, <<-1, 0, 1, 0, 0>>>> }
ValC == {0, 1, -2}
F == Len(c[1].sec)
ZeroLane == [s |-> [i \in 1..F |-> <<0, 0>>], out |-> Zeros(F)]
\* all lanes advance by one: lane i takes what lane i-1 produced in the previous step
LaneStep(L, x) ==
  LET in == [i \in 1..F |-> IF i = 1 THEN x ELSE L.out[i - 1]]
      y == [i \in 1..F |-> c[1].sec[i][3] * in[i] + L.s[i][1]] IN
  [s |-> [i \in 1..F |-> <<L.s[i][2] + c[1].sec[i][4] * in[i] - c[1].sec[i][1] * y[i],
                           c[1].sec[i][5] * in[i] - c[1].sec[i][2] * y[i]>>], out |-> y]
\* steps 1..m of a pass over blk (zeros after its end): lanes, outputs of the last lane, saved state
PassStep(acc, k, blk) ==
  LET L == LaneStep(acc.L, IF k <= Len(blk) THEN blk[k] ELSE 0)
      mayset == IF k <= F - 1 THEN ShortSave ELSE TRUE IN
  [L |-> L, outs |-> Append(acc.outs, L.out[F]), saved |-> IF k = Len(blk) /\ mayset THEN L ELSE acc.saved]
Pass(blk) == FoldLeftDomain(LAMBDA acc, k : PassStep(acc, k, blk),
                            [L |-> lane, outs |-> <<>>, saved |-> IF blk = <<>> /\ ShortSave THEN lane ELSE saved],
                            Zeros(Len(blk) + F - 1))
Blocks == UNION {[1..n -> Values] : n \in 0..MaxBlock}
Init == /\ \E s \in SectionSets : c = <<Fresh(s, 0)>>
        /\ lane = ZeroLane /\ saved = ZeroLane /\ hist = <<>> /\ got = <<>>
DoFeed == \E b \in Blocks :
  /\ Len(hist) + Len(b) <= MaxHist
  /\ LET p == Pass(b) IN
       /\ got' = got \o SubSeq(p.outs, F, F + Len(b) - 1)
       /\ IF F = 1 THEN lane' = p.L /\ saved' = p.L ELSE lane' = p.saved /\ saved' = p.saved
  /\ hist' = hist \o b
  /\ Feed(1, b)
DoReset == Reset(1) /\ lane' = ZeroLane /\ saved' = ZeroLane /\ hist' = <<>> /\ got' = <<>>
Next == DoFeed \/ DoReset
Spec == Init /\ [][Next]_vars
PipelineIsCascade == got = CasBlock(c[1].sec, [i \in 1..F |-> <<0, 0>>], hist).out
StateAgrees == c[1].st = CasBlock(c[1].sec, [i \in 1..F |-> <<0, 0>>], hist).st
=============================================================================
