---------------------------- MODULE WindowTrace ------------------------------
EXTENDS Window, TraceUtil
VARIABLES l
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == l = 1
TBegin == Is("init")
\* same: every way to get the window gives these samples: as a handle, as an expression, from its middle, in the other
\* precision, and the window of one less that is periodic as all but the last
TBins == /\ Is("bins") /\ Eq("same samples", Rec.same, TRUE) /\ Eq("sign", Rec.sign, TRUE)
         /\ LET c == Cosines(Rec.kind, Rec.a)
                m == IF Rec.kind = "cosine_np" THEN Rec.n ELSE IF Rec.n = 1 THEN 1 ELSE Rec.n - 1 IN
            /\ Eq("bins", Len(Rec.got), m)
            /\ \A j \in 1..m : LET e == (IF Rec.kind = "cosine_np" THEN BinHalf(c, m, j - 1) ELSE Bin(c, m, j - 1)) \div 10 IN
                 IF Abs(Rec.got[j] - e) <= 3 THEN TRUE ELSE PrintT(<<"EXPECT", "bin", j - 1, e, "GOT", Rec.got[j]>>) /\ FALSE
\* -1: a sample so near to one that it cannot be inverted
TWin == /\ Is("win") /\ Eq("same samples", Rec.same, TRUE) /\ Eq("samples", Len(Rec.got), Rec.n)
        /\ \A i \in 1..Rec.n : LET e == Position(Rec.kind, Rec.n, i, Rec.a) IN
             IF Rec.kind = "planck_taper" /\ Rec.got[i] = -1
             THEN IF 10 * e >= 18 * Rec.a * (Rec.n - 1) THEN TRUE ELSE PrintT(<<"EXPECT", "taper", i, e, "GOT", -1>>) /\ FALSE
             ELSE Eq(<<"sample", i>>, Rec.got[i], e)
TTone == Is("tone") /\ \A j \in 1..Len(Rec.k) : Eq("tone", Rec.got[j], Tone(Rec.u, Rec.k[j], Rec.x))
TMix == Is("mix") /\ Eq("mix", Rec.got, Mix(Rec.x)) /\ Eq("stereo", Rec.st, Stereo(Rec.m, Rec.x[1], Rec.x[Len(Rec.x)]))
        /\ Eq("halves", Rec.halves, TRUE) /\ Eq("sum and difference", Rec.sd, Stereo(<<1, 1, 1, -1>>, Rec.x[1], Rec.x[Len(Rec.x)]))
TShape == Is("shape") /\ \A i \in 1..Len(Rec.x) : /\ Eq("scale", Rec.sc[i], ShapeScale(Rec.kind, Rec.s, Rec.x[i]))
                                                 /\ Eq("shaped", Rec.got[i], Shape(Rec.kind, Rec.s, Rec.c, Rec.x[i]))
\* decibels of powers of ten (amplitude and power) and back, notes of octaves and back; tuned elsewhere
TUnits == /\ Is("units") /\ Eq("there and back", Rec.same, TRUE)
          /\ Eq("amplitude", Rec.amp, 20 * Rec.e) /\ Eq("power", Rec.pow, 10 * Rec.e)
          /\ Eq("note", Rec.note, 69 + 12 * Rec.o) /\ Eq("tuned", Rec.tuned, Rec.base + 12 * Rec.o)
\* phases of the test signals: quarter turns of square over length, eighths of turns of the fourth power over the cube; impulse
TSignal == /\ Is("signal") /\ Eq("sines", Rec.same, TRUE)
           /\ Eq("linear", Rec.lin, [i \in 1..Rec.n |-> (i - 1) * (i - 1)])
           /\ Eq("cubic", Rec.cub, [i \in 1..Rec.n |-> (i - 1) * (i - 1) * (i - 1) * (i - 1)])
           /\ Eq("impulse", Rec.imp, [i \in 1..Rec.n |-> IF i = 1 THEN 1 ELSE 0])
\* k, k + step, k + 2 step, ...: the phase, and every shape of it
TOsc == /\ Is("osc") /\ Eq("same", Rec.same, TRUE) /\ Eq("length", Len(Rec.phase), Rec.n)
        /\ \A i \in 1..Rec.n : LET k == Rec.k + (i - 1) * Rec.step IN
             /\ Eq(<<"phase", i>>, Rec.phase[i], k % 32)
             /\ Eq(<<"sawtooth", i>>, Rec.saw[i], Saw(k)) /\ Eq(<<"inverse sawtooth", i>>, Rec.isaw[i], InverseSaw(k))
             /\ Eq(<<"triangle", i>>, Rec.tri[i], Triangle(k)) /\ Eq(<<"square", i>>, Rec.sq[i], Square(k))
             /\ (k % 8 = 0 => Eq(<<"sine", i>>, Rec.sine[i], QuarterSine(k)))
TNext == TBegin \/ TBins \/ TWin \/ TTone \/ TMix \/ TShape \/ TUnits \/ TSignal \/ TOsc
TSpec == TInit /\ [][TNext]_l
=============================================================================
