----------------------------- MODULE LoudTrace -------------------------------
EXTENDS Loud, TraceUtil
VARIABLES l, dm, dl   \* the trace position; a block was too near to the absolute gate to say which side it is on
tvars == <<cf, win, ms, ss, run, pend, ml, sl, l, dm, dl>>
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == cf = <<>> /\ win = <<>> /\ ms = 0 /\ ss = 0 /\ run = TRUE /\ pend = FALSE /\ ml = <<>> /\ sl = <<>> /\ l = 1 /\ dm = FALSE /\ dl = FALSE
TBegin == /\ Is("init") /\ Begin([sp |-> Rec.sp, m |-> 4 * Rec.factor, s |-> 30 * Rec.factor, gate |-> Rec.gate, exact |-> Rec.exact])
          /\ dm' = FALSE /\ dl' = FALSE
          /\ Eq("packet size", Rec.size, Rec.rate \div (10 * Rec.factor)) /\ Eq("channels", Rec.count, Len(Rec.sp)) /\ Eq("rate", Rec.shown, Rec.rate)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= b \div 100 + 1
\* some block x of s times k is too near to v to compare
AnyNear(s, k, v) == FoldLeft(LAMBDA a, x : a \/ Near(k * x, v), FALSE, s)
\* within 0.3 per cent (0.013 dB); the energies of noise are recorded rounded
Slack(n) == IF cf.exact THEN 2 ELSE 2 + 12 * Len(cf.sp) * n
Close(what, got, exp, n) == IF Abs(got - exp) <= (exp \div 1000) * 3 + Slack(n) THEN TRUE ELSE PrintT(<<"EXPECT", what, exp, "GOT", got>>) /\ FALSE
TPacket == /\ Is("packet") /\ Packet(Rec.e)
           /\ dm' = ((IF pend THEN FALSE ELSE dm) \/ (run /\ ms' > 0 /\ Near(ms', GateOf(cf.m))))
           /\ dl' = ((IF pend THEN FALSE ELSE dl) \/ (run /\ ss' > 0 /\ Near(ss', GateOf(cf.s))))
Values(b) ==
  /\ Close("momentary", Rec.m, b.ms, cf.m) /\ Close("short term", Rec.s, b.ss, cf.s)
  /\ LET mean == Mean(b.ml) IN AnyNear(b.ml, 10, mean) \/ dm \/ Close("integrated", Rec.i, Integrated(b.ml), cf.m)
  /\ LET sorted == SortSeq(b.sl, <)  fl == Floor20(sorted)  n == Len(sorted)  k == Below(sorted, fl) IN
     IF dl \/ AnyNear(sorted, 1, fl) THEN TRUE
     ELSE IF n - k < 2 THEN Eq("range of nothing", Rec.low = Rec.high, TRUE)
     ELSE /\ \E p \in LowPlaces(n, k) : Close("low", Rec.low, sorted[p], cf.s)
          /\ \E p \in HighPlaces(n, k) : Close("high", Rec.high, sorted[p], cf.s)
\* a reset takes effect not later than with the next packet
TRead == /\ Is("read") /\ UNCHANGED <<cf, win, ms, ss, run, pend, ml, sl, dm, dl>>
         /\ \/ pend /\ Rec.m = 0 /\ Rec.s = 0 /\ Values(Base)
            \/ Values([win |-> win, ms |-> ms, ss |-> ss, ml |-> ml, sl |-> sl])
TReset == Is("reset") /\ Reset /\ UNCHANGED <<dm, dl>>
TStart == Is("start") /\ Start /\ UNCHANGED <<dm, dl>>
TStop == Is("stop") /\ Stop /\ UNCHANGED <<dm, dl>>
\* The frequency response of the measurement (BS.1770, table 1 and 2) in thousandths of dB: a sine of full scale
\* in one front channel reads -0.691 - 3.010 + gain.
Gain(f) == CASE f = 20 -> -13275 [] f = 40 -> -5567 [] f = 50 -> -3934 [] f = 60 -> -2899 [] f = 100 -> -1133 [] f = 200 -> -265 [] f = 500 -> 42
             [] f = 1000 -> 698 [] f = 2000 -> 3071 [] f = 4000 -> 3968 [] f = 8000 -> 4039 [] f = 10000 -> 4042 [] f = 16000 -> 4043
\* ten times the logarithm of the weight of a speaker
Boost(sp) == IF Weight(sp) = 24 THEN 1500 ELSE 0
Within(what, got, exp, tol) == IF Abs(got - exp) <= tol THEN TRUE ELSE PrintT(<<"EXPECT", what, exp, "GOT", got>>) /\ FALSE
TTone == /\ Is("tone") /\ UNCHANGED <<cf, win, ms, ss, run, pend, ml, sl, dm, dl>>
         /\ IF Weight(Rec.sp) = 0 THEN Eq("silent channel", <<Rec.m, Rec.s, Rec.i>>, <<-200000, -200000, -200000>>)
            ELSE LET x == -3701 + Gain(Rec.f) + Boost(Rec.sp) + 1000 * Rec.db IN
                 /\ Within("momentary", Rec.m, x, 30) /\ Within("short term", Rec.s, x, 30) /\ Within("integrated", Rec.i, x, 200)
TNext == TBegin \/ TPacket \/ TRead \/ TReset \/ TStart \/ TStop \/ TTone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
