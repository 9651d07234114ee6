-------------------------------- MODULE Ops ---------------------------------
(* History-carrying signal operators.  A pipeline is a sequence of stages,   *)
(* each of which looks only at its own input history:                        *)
(*   <<"d", N>>      delay: the input N samples ago                          *)
(*   <<"s", N>>      moving sum of the last N inputs                         *)
(*   <<"f", taps>>   short FIR                                               *)
(*   <<"h", t, den>> FIR with rational taps t/den                            *)
(* The state of a stage is what the operator is documented to remember: the  *)
(* most recent inputs (zeros before the start), nothing else.                *)
EXTENDS Integers, Sequences, SequencesExt, Num

VARIABLE p        \* object |-> [stages, mem]  (mem[i]: past inputs of stage i, most recent last)

Depth(s) == CASE s[1] = "d" -> s[2] [] s[1] = "s" -> s[2] - 1 [] OTHER -> Len(s[2]) - 1
\* output of a stage at position i of its (extended) input h
OutAt(s, h, i) ==
  LET X(k) == IF k >= 1 THEN h[k] ELSE 0 IN
  CASE s[1] = "d" -> X(i - s[2])
    [] s[1] = "s" -> FoldLeft(LAMBDA a, k : a + X(i - k), 0, [k \in 1..s[2] |-> k - 1])
    [] s[1] = "f" -> FoldLeftDomain(LAMBDA a, k : a + s[2][k] * X(i - k + 1), 0, s[2])
    [] s[1] = "h" -> FoldLeftDomain(LAMBDA a, k : a + s[2][k] * X(i - k + 1), 0, s[2]) \div s[3]
StageBlock(s, mem, blk) ==
  LET h == mem \o blk
      d == NumMin(Depth(s), Len(h)) IN
  [out |-> Force([i \in 1..Len(blk) |-> OutAt(s, h, Len(mem) + i)]), mem |-> SubSeq(h, Len(h) - d + 1, Len(h))]
PipeBlock(stages, mem, blk) ==
  FoldLeftDomain(LAMBDA acc, i : LET r == StageBlock(stages[i], mem[i], acc.out) IN
                                 [out |-> r.out, mem |-> Append(acc.mem, r.mem)],
                 [out |-> blk, mem |-> <<>>], stages)
Fresh(stages) == [stages |-> stages, mem |-> [i \in 1..Len(stages) |-> <<>>]]
Result(o, blk) == PipeBlock(p[o].stages, p[o].mem, blk)
Feed(o, blk) == p' = [p EXCEPT ![o].mem = Result(o, blk).mem]
Renew(o) == p' = [p EXCEPT ![o] = Fresh(@.stages)]
Copy(a, b) == p' = [p EXCEPT ![b] = p[a]]
=============================================================================
