------------------------------- MODULE MCRing -------------------------------
(* The fragment algorithm (skip what would be overwritten, then one or two   *)
(* copies) refines Ring for every size, cursor and length, including lengths *)
(* above the size; the history variable checks the "most recent samples"     *)
(* reading of the property.                                                  *)
EXTENDS Ring, TLC
CONSTANTS Sizes, MaxN, MaxOps
VARIABLES ops, next, hist, ok
vars == <<mem, cur, ops, next, hist, ok>>
Init == /\ \E s \in Sizes : mem = Zeros(s)
        /\ \E k \in 0..Size-1 : cur = [c \in {1, 2} |-> k]
        /\ ops = 0 /\ next = 1 /\ hist = <<>> /\ ok = TRUE
FragWrite(m, c, src) ==
  LET n == Len(m)
      skip == NumMax(0, Len(src) - n)
      s == SubSeq(src, skip + 1, Len(src))
      c0 == (c + (skip % n)) % n
      f == n - c0 IN
  IF Len(s) <= f THEN [i \in 1..n |-> IF i - 1 >= c0 /\ i - 1 < c0 + Len(s) THEN s[i - c0] ELSE m[i]]
  ELSE [i \in 1..n |-> IF i - 1 >= c0 THEN s[i - c0] ELSE IF i <= Len(s) - f THEN s[f + i] ELSE m[i]]
DoWrite(n) == LET src == [i \in 1..n |-> next + i] IN
  /\ Write(1, src) /\ next' = next + n /\ hist' = hist \o src
  /\ ok' = (mem' = FragWrite(mem, cur[1], src))
DoRead(n) == /\ Read(2, n) /\ UNCHANGED <<next, hist>>
             /\ ok' = (\A i \in 1..n : ReadOut(2, n)[i] = mem[((cur[2] + i - 1) % Size) + 1])
DoStep(k) == Step(2, k) /\ UNCHANGED <<next, hist, ok>>
Next == ops < MaxOps /\ ops' = ops + 1 /\ \E n \in 0..MaxN : DoWrite(n) \/ DoRead(n) \/ DoStep(n)
Spec == Init /\ [][Next]_vars
Ok == ok
\* the samples just behind the write cursor are the most recent ones
Recent == \A k \in 1..NumMin(Size, Len(hist)) : mem[((cur[1] - k) % Size) + 1] = hist[Len(hist) - k + 1]
=============================================================================
