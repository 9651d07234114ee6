-------------------------------- MODULE Ring --------------------------------
(* A vector used as a ring through independent cursors.  Every transfer is   *)
(* defined one sample at a time.                                             *)
EXTENDS Integers, Sequences, SequencesExt, Num
VARIABLES mem,    \* the vector, 1-based
          cur     \* cursor -> position, 0-based
Size == Len(mem)
StepTo(c, k) == (cur[c] + k) % Size
WriteOne(s, x) == [mem |-> [s.mem EXCEPT ![s.c + 1] = x], c |-> (s.c + 1) % Len(s.mem)]
Written(c, src) == FoldLeft(WriteOne, [mem |-> mem, c |-> cur[c]], src)
ReadOut(c, n) == [i \in 1..n |-> mem[((cur[c] + i - 1) % Size) + 1]]
Write(c, src) == mem' = Written(c, src).mem /\ cur' = [cur EXCEPT ![c] = StepTo(c, Len(src))]
Read(c, n) == cur' = [cur EXCEPT ![c] = StepTo(c, n)] /\ UNCHANGED mem
Step(c, k) == cur' = [cur EXCEPT ![c] = StepTo(c, k)] /\ UNCHANGED mem
Inside == \A c \in DOMAIN cur : cur[c] \in 0..Size-1
=============================================================================
