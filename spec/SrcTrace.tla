------------------------------ MODULE SrcTrace -------------------------------
(* Recorded executions of the real converter.  Its filter was replaced by     *)
(* integers, so all sums are exact; the kernel is read off the responses to   *)
(* impulses at the inputs of one period.                                      *)
EXTENDS Src, TraceUtil
VARIABLES p, s, l       \* parameters, one state per plane
tvars == <<p, s, l>>
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* h[j] is the response at output k to an impulse at input i where k*D - i*I = j
Kernel(r) == Force([j1 \in 1..r.taps |-> LET j == j1 - 1
                                             i == CHOOSE i \in 0..(r.d - 1) : (j + (i * r.i)) % r.d = 0 IN
                                         r.r[i + 1][((j + (i * r.i)) \div r.d) + 1]])
\* nothing before the impulse and nothing after the kernel's length
Outside(r) == {x \in (1..r.d) \X (1..Len(r.r[1])) : LET j == ((x[2] - 1) * r.d) - ((x[1] - 1) * r.i) IN
                 (j < 0 \/ j >= r.taps) /\ r.r[x[1]][x[2]] # 0}
TInit == p = <<>> /\ s = <<>> /\ l = 1
TNew == /\ Is("init")
        /\ Eq("interpolation", Rec.i, Rec.up \div Gcd(Rec.up, Rec.down)) /\ Eq("decimation", Rec.d, Rec.down \div Gcd(Rec.up, Rec.down))
        /\ Eq("taps", Rec.taps, Rec.depth * Rec.i) /\ Eq("outside the kernel", Outside(Rec), {})
        /\ p' = [i |-> Rec.i, d |-> Rec.d, depth |-> Rec.depth, h |-> Kernel(Rec), taps |-> Rec.taps]
        /\ s' = [x \in 1..Rec.planes |-> Fresh(Rec.depth)]
K == s[1].k
Advance(need, n) ==
  /\ Eq("consumed", Rec.ret, need) /\ Eq("inside", Rec.ok, TRUE)
  /\ s' = [x \in 1..Len(s) |-> After(s[x], Rec.in[x], n, p.i, p.d, p.depth)] /\ UNCHANGED p
Outs(n) == [x \in 1..Len(s) |-> Force(Out(s[x], Rec.in[x], p.h, n, p.i, p.d, p.depth))]
TPull == /\ Is("P") /\ Eq("input asked for", Rec.need, Need(K, Rec.n, p.i, p.d))
         /\ Eq("output", Rec.out, Outs(Rec.n)) /\ Advance(Rec.need, Rec.n)
TSkip == /\ Is("K") /\ Eq("input asked for", Rec.need, Need(K, Rec.n, p.i, p.d)) /\ Advance(Rec.need, Rec.n)
TPush == /\ Is("U") /\ Eq("outputs offered", Rec.n, Room(K, Len(Rec.in[1]), p.i, p.d))
         /\ Eq("output", Rec.out, Outs(Rec.n)) /\ Advance(Need(K, Rec.n, p.i, p.d), Rec.n)
\* whole periods of silence move nothing
TFar == Is("F") /\ Eq("off", Rec.off, 0) /\ s' = [x \in 1..Len(s) |-> Quiet(s[x], p.depth)] /\ UNCHANGED p
Abs(x) == IF x < 0 THEN -x ELSE x
TQuery == /\ Is("Q") /\ Eq("output to input", Rec.oi, Div(Rec.p * p.d, p.i)) /\ Eq("input to output", Rec.io, Div(Rec.p * p.i, p.d))
          /\ Eq("need", Rec.need, Need(K, Abs(Rec.p), p.i, p.d)) /\ Eq("room", Rec.room, Room(K, Abs(Rec.p), p.i, p.d)) /\ UNCHANGED <<p, s>>
\* the real filter: a constant comes out constant (ppm), a ramp comes out as the ramp delayed by half the kernel (0.001/I)
Ppm(q) == CASE q = 4 -> 30000 [] q = 6 -> 200 [] OTHER -> 20
TConst == /\ Is("C") /\ Eq("constant", Rec.dev <= Ppm(Rec.q), TRUE)
          /\ Eq("ramp", Rec.ramp <= (CASE Rec.q = 4 -> 1000 + (p.i * 1000) [] Rec.q = 6 -> 700 + (p.i * 10) [] OTHER -> 700 + p.i), TRUE)
          /\ Eq("delay", Rec.delay, (p.taps - 1) \div (2 * p.d)) /\ UNCHANGED <<p, s>>
TNext == TNew \/ TPull \/ TSkip \/ TPush \/ TFar \/ TQuery \/ TConst
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
