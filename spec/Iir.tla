-------------------------------- MODULE Iir ---------------------------------
(* A cascade of second-order sections as a state machine.  A section         *)
(* <<a1,a2,b0,b1,b2>> (a0 = 1) maps x to y by the difference equation        *)
(*    y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2]         *)
(* kept here in transposed form with two state values per section.           *)
(* lat: extra latency in samples (the low-latency-free form delays by        *)
(* sections-1); pending holds the outputs not yet delivered.                 *)
EXTENDS Integers, Sequences, SequencesExt, Num

VARIABLE c        \* object |-> [sec, st, lat, pending]

Fresh(sec, lat) == [sec |-> sec, st |-> [i \in 1..Len(sec) |-> <<0, 0>>], lat |-> lat, pending |-> Zeros(lat)]

\* one section over a block: [out, s1, s2]
SecStep(k, acc, x) ==
  LET y == k[3] * x + acc.s1 IN
  [out |-> Append(acc.out, y), s1 |-> acc.s2 + k[4] * x - k[1] * y, s2 |-> k[5] * x - k[2] * y]
SecBlock(k, s, blk) == FoldLeft(LAMBDA acc, x : SecStep(k, acc, x), [out |-> <<>>, s1 |-> s[1], s2 |-> s[2]], blk)
\* the whole cascade over a block: [out, st]
CasBlock(sec, st, blk) ==
  FoldLeftDomain(LAMBDA acc, i : LET r == SecBlock(sec[i], st[i], acc.out) IN
                                 [out |-> r.out, st |-> Append(acc.st, <<r.s1, r.s2>>)],
                 [out |-> blk, st |-> <<>>], sec)

Result(o, blk) ==
  LET r == CasBlock(c[o].sec, c[o].st, blk)
      all == c[o].pending \o r.out IN
  [out |-> SubSeq(all, 1, Len(blk)), pending |-> SubSeq(all, Len(blk) + 1, Len(all)), st |-> r.st]
Feed(o, blk) == LET r == Result(o, blk) IN c' = [c EXCEPT ![o].st = r.st, ![o].pending = r.pending]
Reset(o) == c' = [c EXCEPT ![o] = Fresh(@.sec, @.lat)]
SetSections(o, sec) == c' = [c EXCEPT ![o] = Fresh(sec, @.lat)]
CopyTo(a, b) == c' = [c EXCEPT ![b] = c[a]]
=============================================================================
