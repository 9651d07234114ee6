------------------------------ MODULE GenDesign ------------------------------
EXTENDS Design, FiniteSets, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n
vars == <<script, n>>
Init == n = 0 /\ script = <<>>
Log(op) == script' = Append(script, op) /\ n' = n + 1
\* roots whose numbers add up to at most d; left: real parts negative or (axis) zero with an imaginary one
Root(left, axis, i) == IF RandomElement(1..2) = 1 THEN <<IF left THEN -RandomElement(1..3) ELSE RandomElement(-3..3)>>
                       ELSE <<IF axis /\ RandomElement(1..2) = 1 THEN 0 ELSE IF left THEN -RandomElement(1..3) ELSE RandomElement(-3..3), RandomElement(1..3)>>
RECURSIVE Roots(_, _, _)
Roots(d, left, axis) == IF d = 0 THEN <<>> ELSE LET r == Root(left, axis, d) IN IF Len(r) > d THEN <<<<-RandomElement(1..2)>>>> \o Roots(d - 1, left, axis) ELSE <<r>> \o Roots(d - Len(r), left, axis)
Flat(r) == <<Len(r)>> \o FoldLeft(LAMBDA a, x : a \o <<Len(x)>> \o x, <<>>, r)
Gain(i) == RandomElement({1, 1, 2, 3, -1, 5})
Sos == \E d \in {RandomElement(0..9)} : \E e \in {RandomElement({d, d, RandomElement(0..9)})} :
         \E p \in {Roots(d, FALSE, TRUE)} : \E z \in {Roots(e, FALSE, TRUE)} :
           Log(<<"sos", RandomElement(0..1), RandomElement(1..1000), Gain(n)>> \o Flat(z) \o Flat(p))
\* a point and what is multiplied with the value there, if it is in reach
RECURSIVE Capped(_, _)
Capped(m, d) == IF d = 0 THEN 1 ELSE LET r == Capped(m, d - 1) IN IF r > 100000000 \div m THEN 200000000 ELSE r * m
Fits(f, pr) == Capped(Abs(pr[1]) + 5 * Abs(pr[2]), Larger(Deg(f.p), Deg(f.z))) < 100000000
Points == {<<a, b>> \in ((-5)..5) \X (1..3) : a # 0 /\ a # b /\ a # -b /\ Gcd(Abs(a), b) = 1}
Reach(f, kind, u, v, x) == /\ LET c == x[1] - x[2]  d == x[1] + x[2] IN kind = "bandstop" => c * c * u[2] * v[2] + d * d * u[1] * v[1] # 0
                           /\ Fits(f, Proto(kind, u, v, x[1], x[2]))
                           /\ LET pr == Proto(kind, u, v, x[1], x[2]) IN Bottom(f, pr[1], pr[2]) # 0
Few(S, i) == LET s == SetToSeq(S) IN [j \in 1..(IF Len(s) < 5 THEN Len(s) ELSE 5) |-> s[RandomElement(1..Len(s))]]
Edge(i) == RandomElement({<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<2, 3>>, <<1, 5>>})
Xform ==
  \E kind \in {RandomElement({"lowpass", "highpass", "bandpass", "bandstop"})} :
  \E d \in {RandomElement(1..(IF kind \in {"lowpass", "highpass"} THEN 5 ELSE 4))} :
  \E e \in {RandomElement({0, 0, RandomElement(0..d)})} :
  \E p \in {Roots(d, TRUE, FALSE)} : \E z \in {Roots(e, TRUE, TRUE)} :
  \E u0 \in {Edge(n)} : \E v0 \in {Edge(n + 1)} :
  LET up == u0[1] * v0[2] < v0[1] * u0[2]
      u == IF up THEN u0 ELSE v0
      v == IF up THEN v0 ELSE u0
      f == [z |-> z, p |-> p, k |-> Gain(n)]
      pts == Few({x \in Points : Reach(f, kind, u, v, x)}, n) IN
  /\ kind \in {"bandpass", "bandstop"} => u # v
  /\ pts # <<>>
  /\ LET pr(x) == Proto(kind, u, v, x[1], x[2]) IN
     Log(<<"xform", kind, RandomElement(1..1000), f.k>> \o Flat(z) \o Flat(p) \o u \o v \o <<Len(pts)>>
         \o FoldLeft(LAMBDA a, x : a \o x \o <<Bottom(f, pr(x)[1], pr(x)[2])>>, <<>>, pts))
Biq ==
  \E kind \in {RandomElement({"lowpass", "highpass", "bandpass", "notch", "allpass", "peak", "lowshelf", "highshelf"})} :
  \E q \in {RandomElement({<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<5, 2>>, <<10, 1>>})} : \E v \in {RandomElement(1..6)} : \E u \in {Edge(n)} :
  \E cut \in {(kind \in {"peak", "lowshelf", "highshelf"}) /\ (RandomElement(1..2) = 1)} :
  LET val(x) == Biquad(kind, cut, q, v, (x[1] - x[2]) * u[2], (x[1] + x[2]) * u[1])
      pts == Few({x \in Points : val(x)[2] # 0}, n) IN
  Log(<<"biquad", kind, IF cut THEN 1 ELSE 0>> \o q \o <<v>> \o u \o <<Len(pts)>> \o FoldLeft(LAMBDA a, x : a \o x \o <<val(x)[2]>>, <<>>, pts))
Pro ==
  \E kind \in {RandomElement({"butterworth", "chebyshev1", "chebyshev2", "bessel"})} :
  \E k \in {IF kind \in {"butterworth", "bessel"} THEN RandomElement(1..24) ELSE RandomElement(1..10)} :
  \E e \in {RandomElement(1..9)} :
  LET ws == CASE kind = "bessel" -> <<0, 1, -1, 2>> [] kind = "chebyshev2" -> SelectSeq(<<-1, 1, 2>>, LAMBDA w : ChebSq(k, w) + e # 0) [] OTHER -> <<-1, 0, 1, 2>> IN
  Log(<<"proto", kind, k, e, Len(ws)>> \o FoldLeft(LAMBDA a, w : a \o <<w, IF kind = "chebyshev2" THEN ChebSq(k, w) + e ELSE 1>>, <<>>, ws))
Des ==
  \E kind \in {RandomElement({"butterworth", "chebyshev1", "chebyshev2"})} :
  \E form \in {RandomElement({"lowpass", "highpass", "bandpass", "bandstop"})} :
  \E k \in {RandomElement(1..9)} : \E e \in {RandomElement(1..9)} :
  \E u0 \in {Edge(n)} : \E v0 \in {Edge(n + 1)} :
  LET up == u0[1] * v0[2] < v0[1] * u0[2]
      u == IF up THEN u0 ELSE v0
      v == IF up THEN v0 ELSE u0
      pr(x) == Proto(form, u, v, x[1], x[2])
      \* the Chebyshev polynomial grows six times as fast
      small(x) == pr(x)[2] # 0 /\ Capped((IF kind = "butterworth" THEN 1 ELSE 6) * (pr(x)[1] * pr(x)[1] + pr(x)[2] * pr(x)[2]), IF kind = "butterworth" THEN k ELSE k + 1) < 100000000
      pts == Few({x \in Points : (form = "bandstop" => (x[1] - x[2]) * (x[1] - x[2]) * u[2] * v[2] + (x[1] + x[2]) * (x[1] + x[2]) * u[1] * v[1] # 0)
                                  /\ small(x) /\ Power(kind, k, e, pr(x))[2] # 0}, n) IN
  /\ form \in {"bandpass", "bandstop"} => u # v
  /\ pts # <<>>
  /\ Log(<<"design", kind, form, k, e>> \o u \o v \o <<Len(pts)>> \o FoldLeft(LAMBDA a, x : a \o x \o <<Power(kind, k, e, pr(x))[2]>>, <<>>, pts))
Fir == \E k \in {RandomElement(3..70)} : \E c \in {RandomElement(1..5)} :
         Log(<<"fir", k, IF k % 2 = 0 THEN 4 * (1 + (c % 2)) ELSE 2 * c, RandomElement(0..11)>>)
Step == n < MaxOps /\ (Sos \/ Xform \/ Biq \/ Pro \/ Fir \/ Des)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
