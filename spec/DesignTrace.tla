---------------------------- MODULE DesignTrace ------------------------------
EXTENDS Design, TraceUtil
VARIABLES l
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == l = 1
TBegin == Is("init")
F == [z |-> Rec.z, p |-> Rec.p, k |-> Rec.k]
TSos == Is("sos") /\ (IF Realises(Rec.ss, F) THEN TRUE ELSE PrintT(<<"EXPECT", "sections of", F, "GOT", Rec.ss>>) /\ FALSE)
\* got: the values at the points times the scale that came with each
TXform == /\ Is("xform") /\ Eq("stability", Rec.stable, TRUE)
          /\ \A i \in 1..Len(Rec.at) :
               LET pr == Proto(Rec.kind, Rec.u, Rec.w, Rec.at[i][1], Rec.at[i][2]) IN
               /\ Eq("scale", Rec.at[i][3], Bottom(F, pr[1], pr[2]))
               /\ Eq("value", Rec.got[i], Top(F, pr[1], pr[2]))
TBiquad == /\ Is("biquad")
           /\ \A i \in 1..Len(Rec.at) :
                LET a == Rec.at[i][1]  b == Rec.at[i][2]
                    b2 == Biquad(Rec.kind, Rec.cut, Rec.q, Rec.v, (a - b) * Rec.u[2], (a + b) * Rec.u[1]) IN
                /\ Eq("scale", Rec.at[i][3], b2[2])
                /\ Eq("value", Rec.got[i], b2[1])
\* power: product of the values at s and -s
TProto ==
  /\ Is("proto") /\ Eq("order", Rec.np, Rec.n) /\ Eq("stability", Rec.stable, TRUE)
  /\ CASE Rec.kind = "butterworth" -> Eq("zeros", Rec.nz, 0) /\ \A i \in 1..Len(Rec.w) : Eq("1/power", Rec.got[i], 1 + Pow(Rec.w[i], Rec.n))
       [] Rec.kind = "chebyshev1" -> Eq("zeros", Rec.nz, 0) /\ \A i \in 1..Len(Rec.w) : Eq("1/power", Rec.got[i], 1 + Rec.e * ChebSq(Rec.n, Rec.w[i]))
       [] Rec.kind = "chebyshev2" -> /\ Eq("zeros", Rec.nz, Rec.n - (Rec.n % 2))
                                     /\ \A i \in 1..Len(Rec.w) : LET t == ChebSq(Rec.n, Rec.w[i]) IN Eq("scale", Rec.sc[i], t + Rec.e) /\ Eq("power", Rec.got[i], t)
       [] Rec.kind = "bessel" -> /\ Eq("zeros", Rec.nz, 0)
                                 /\ \A i \in 1..Len(Rec.w) : LET b == BesselMicro(Rec.n, Rec.w[i]) IN
                                      IF Abs(Rec.got[i] - b) <= 60 THEN TRUE ELSE PrintT(<<"EXPECT", "value", b, "GOT", Rec.got[i]>>) /\ FALSE
\* c: cutoff in 24ths of the sampling rate; taps: sine of the phase of each tap (as Sine), the middle one: twice the cutoff, in 12ths
TFir ==
  /\ Is("fir") /\ Eq("complement and bands", Rec.same, TRUE) /\ Eq("gain of the normalized", Rec.sum, 1)
  /\ Eq("taps", Rec.taps, [i \in 1..Rec.n |-> IF 2 * i - 1 = Rec.n THEN Rec.c ELSE Sine(((2 * i - 1 - Rec.n) * Rec.c) \div 4)])
\* the digital filter of a prototype, all sections: value at z times value at 1 / z
TDesign == /\ Is("design") /\ Eq("stability", Rec.stable, TRUE)
           /\ \A i \in 1..Len(Rec.at) :
                LET pw == Power(Rec.kind, Rec.n, Rec.e, Proto(Rec.form, Rec.u, Rec.w, Rec.at[i][1], Rec.at[i][2])) IN
                /\ Eq("scale", Rec.at[i][3], pw[2])
                /\ Eq("power", Rec.got[i], pw[1])
TNext == TBegin \/ TSos \/ TXform \/ TBiquad \/ TProto \/ TFir \/ TDesign
TSpec == TInit /\ [][TNext]_l
=============================================================================
