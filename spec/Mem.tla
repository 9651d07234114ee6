-------------------------------- MODULE Mem ----------------------------------
(* Reference-counted aligned blocks.  b: id -> [size, refs] of the live ones, *)
(* stats: <<blocks obtained, bytes obtained, blocks freed, bytes freed>>.     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES b, stats
Fresh == b = <<>> /\ stats = <<0, 0, 0, 0>>
Aligns == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768}
Valid(n, align) == n >= 0 /\ align \in Aligns
New(id, n) == [x \in DOMAIN b \cup {id} |-> IF x = id THEN [size |-> n, refs |-> 1] ELSE b[x]]
Without(m, id) == [x \in DOMAIN m \ {id} |-> m[x]]
Got(st, n) == [st EXCEPT ![1] = @ + 1, ![2] = @ + n]
Gone(st, n) == [st EXCEPT ![3] = @ + 1, ![4] = @ + n]
Obtain(id, n) == b' = New(id, n) /\ stats' = Got(stats, n)
Refuse == UNCHANGED <<b, stats>>
AddRef(id) == b' = [b EXCEPT ![id].refs = @ + 1] /\ UNCHANGED stats
\* the last reference frees
Drop(m, id) == IF m[id].refs = 1 THEN Without(m, id) ELSE [m EXCEPT ![id].refs = @ - 1]
DropStats(st, m, id) == IF m[id].refs = 1 THEN Gone(st, m[id].size) ELSE st
Release(id) == b' = Drop(b, id) /\ stats' = DropStats(stats, b, id)
\* a new block with the old contents, one reference to the old one given up
Move(id, nid, n) == LET m == New(nid, n) IN b' = Drop(m, id) /\ stats' = DropStats(Got(stats, n), m, id)
=============================================================================
