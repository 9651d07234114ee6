-------------------------------- MODULE MCOps -------------------------------
(* Design model of the ring-buffer implementations (moving sum with head and *)
(* tail cursors processed in chunks of any width; delay line of N cells      *)
(* processed in chunks shorter and longer than N) against Ops.               *)
EXTENDS Ops, FiniteSets, TLC
CONSTANTS Ns, MaxW, MaxLen, Vals
VARIABLES n, line, head, tail, dline, cur, outs, wants, fed
vars == <<p, n, line, head, tail, dline, cur, outs, wants, fed>>
Init == /\ n \in Ns /\ p = [o \in {1, 2} |-> Fresh(<<<<IF o = 1 THEN "s" ELSE "d", n>>>>)]
        /\ line = Zeros(n) /\ head = 0 /\ tail = (IF n > 1 THEN 1 ELSE 0)
        /\ dline = Zeros(n) /\ cur = 0 /\ outs = <<>> /\ wants = <<>> /\ fed = 0
\* moving sum over one chunk: write, sum everything, then for the others add new, subtract old
RECURSIVE MS(_, _, _, _, _, _)
MS(blk, i, ln, h, t, acc) ==
  IF i > Len(blk) THEN [out |-> acc, line |-> ln, head |-> h, tail |-> t]
  ELSE LET ln2 == [ln EXCEPT ![h + 1] = blk[i]]
           h2 == (h + 1) % n
           s == IF i = 1 THEN NumSum(ln2) ELSE acc[i - 1] + blk[i] - ln[t + 1]
           t2 == IF i = 1 THEN t ELSE (t + 1) % n IN
       MS(blk, i + 1, ln2, h2, t2, Append(acc, s))
\* delay line over one chunk: read min(w,n) old cells, write the last min(w,n) inputs
DL(blk) ==
  LET w == Len(blk)
      k == NumMin(w, n)
      old == [i \in 1..k |-> dline[((cur + i - 1) % n) + 1]]
      out == SubSeq(old \o blk, 1, w) IN
  [out |-> out,
   line |-> [j \in 1..n |-> LET off == (j - 1 - cur) % n IN IF off < k THEN blk[w - k + off + 1] ELSE dline[j]],
   cur |-> (cur + k) % n]
Step(w) == \E blk \in [1..w -> Vals] :
  LET m == MS(blk, 1, line, head, tail, <<>>)
      d == DL(blk) IN
  /\ fed + w <= MaxLen /\ fed' = fed + w
  /\ line' = m.line /\ head' = m.head /\ tail' = (m.tail + 1) % n
  /\ dline' = d.line /\ cur' = d.cur
  /\ outs' = <<m.out, d.out>> /\ wants' = <<Result(1, blk).out, Result(2, blk).out>>
  /\ p' = [o \in {1, 2} |-> [p[o] EXCEPT !.mem = Result(o, blk).mem]]
  /\ UNCHANGED n
Next == \E w \in 1..MaxW : Step(w)
Spec == Init /\ [][Next]_vars
Agree == outs = wants
CursorsInside == head \in 0..n-1 /\ tail \in 0..n-1 /\ cur \in 0..n-1
=============================================================================
