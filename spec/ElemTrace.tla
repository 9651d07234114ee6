------------------------------ MODULE ElemTrace -------------------------------
EXTENDS Elem, TraceUtil
VARIABLES l
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == l = 1
TBegin == Is("init")
\* same: single values, vectors of any width, expressions and the other precision agree
Same == Eq("same", Rec.same, TRUE)
Near(what, got, want) == IF Abs(got - want) <= 1 THEN TRUE ELSE PrintT(<<"EXPECT", what, want, "GOT", got>>) /\ FALSE
TTurn == /\ Is("turn") /\ Same
         /\ LET w == Point(Rec.t, Rec.n, Rec.k) IN
            /\ Eq("sine", Rec.s, w[2]) /\ Eq("cosine", Rec.c, w[1]) /\ Eq("pairs", Rec.pairs, <<w[2], w[1], w[1], w[2]>>)
            /\ Eq("degrees", Rec.deg, <<w[2], w[1], w[2], w[1], w[1], w[2]>>)
            /\ (Rec.tan # <<>> => Eq("tangent", Rec.tan, <<w[2], w[2]>>))
            /\ (Rec.mult # <<>> => LET w2 == Mul(w, w) w3 == Mul(w, w2) IN Eq("multiples", Rec.mult, <<w2[1], w2[2], w3[1], w3[2]>>))
THyp == /\ Is("hyp") /\ Same
        /\ Eq("sinh", Rec.sh, Sinh(Rec.p, Rec.q)) /\ Eq("cosh", Rec.ch, Cosh(Rec.p, Rec.q))
        /\ Eq("pairs", Rec.pairs, <<Sinh(Rec.p, Rec.q), Cosh(Rec.p, Rec.q), Cosh(Rec.p, Rec.q), Sinh(Rec.p, Rec.q)>>)
        /\ Eq("tanh", Rec.th, Sinh(Rec.p, Rec.q)) /\ (Rec.p # Rec.q => Eq("coth", Rec.ct, Cosh(Rec.p, Rec.q)))
\* powers of a base: exponents come back, values come back (in millionths)
TPow == /\ Is("pow") /\ Same
        /\ \A i \in 1..Len(Rec.logs) : Eq(<<"logarithm", i>>, Rec.logs[i], Rec.e)
        /\ \A i \in 1..Len(Rec.pows) : Eq(<<"power", i>>, Rec.pows[i], 1000000)
        /\ Eq("negative base", Rec.neg, IF Rec.e % 2 = 0 THEN 1000000 ELSE -1000000)
        /\ Eq("fused", Rec.fused, <<Rec.e * Rec.m + Rec.a, 1000000>>)
        /\ \A i \in 1..Len(Rec.roots) : Eq(<<"root", i>>, Rec.roots[i], 1000000)
        /\ (Rec.negroots # <<>> => Eq("odd roots", Rec.negroots, <<-1000000, -1000000>>))
        /\ Eq("even root of a negative", Rec.norealroot, TRUE)
TInv == /\ Is("inv") /\ Same
        /\ LET w == Point(Rec.t, Rec.n, Rec.k) IN
           /\ Eq("arc tangent of two", Rec.at2, <<w[1], w[2]>>) /\ Eq("in degrees", Rec.at2d, <<w[1], w[2]>>) /\ Eq("range", Rec.range, TRUE)
           /\ Eq("arc sine", Rec.as, w[2]) /\ Eq("arc cosine", Rec.ac, w[1])
           /\ (w[1] # 0 => Eq("arc tangent", Rec.at, <<Abs(w[1]), w[2] * Sign(w[1])>>) /\ Eq("in degrees", Rec.atd, <<Abs(w[1]), w[2] * Sign(w[1])>>))
TCplx == /\ Is("cplx") /\ Same
         /\ LET z == Rec.z  z2 == Mul(z, z)  w == Point(Rec.t, Rec.n, Rec.k)  p == Rec.p  q == Rec.q IN
            /\ Eq("square", Rec.sqr, z2) /\ Eq("root", Rec.sqrt, Principal(z))
            /\ Eq("size", Rec.abs, <<Norm(z), Norm(z)>>) /\ (Norm(z) # 0 => Eq("direction", Rec.arg, z2))
            /\ Eq("polar and back", Rec.back, z2) /\ (Norm(z) # 0 => Eq("logarithm", Rec.log, <<Norm(z), z2[1], z2[2]>>))
            /\ (Norm(z) # 0 => Eq("exponent of logarithm", Rec.explog, <<z[1], z[2], z[1], z[2], z[1], z[2]>>))
            /\ Eq("exponent", Rec.exp, Scale(p, w)) /\ Eq("power of two", Rec.exp2, w) /\ Eq("power of ten", Rec.exp10, w)
            /\ Eq("sine", Rec.sin, CSin(w, p, q)) /\ Eq("cosine", Rec.cos, CCos(w, p, q))
            /\ Eq("hyperbolic sine", Rec.sinh, CSinh(w, p, q)) /\ Eq("hyperbolic cosine", Rec.cosh, CCosh(w, p, q))
TSpecial == /\ Is("special") /\ Same
            /\ LET w == SpecialOf(Rec.f, Rec.x) IN w # "any" => Eq(<<Rec.f, Rec.x>>, Rec.got, w)
\* nothing over a negative nothing: either side will do
TDir == Is("dir") /\ Same /\ IF Rec.y = "0" /\ Rec.x = "-0" THEN Rec.got \in {0, 4} ELSE Eq(<<"direction", Rec.y, Rec.x>>, Rec.got, Direction(Rec.y, Rec.x))
TGamma == Is("gamma") /\ Same /\ Eq("gamma", Rec.got, Fact(Rec.n - 1)) /\ Eq("factorial", Rec.fact, Fact(Rec.n - 1))
TInterp == /\ Is("interp") /\ Same
           /\ LET x == Rec.x  m == Rec.m IN
              /\ Eq("nearest", Rec.nearest, Nearest(m, x[2], x[3])) /\ Eq("linear", Rec.linear, Linear(m, x[2], x[3]))
              /\ Eq("cubic", Rec.cubic, Cubic(m, x[1], x[2], x[3], x[4])) /\ Eq("catmullrom", Rec.cr, CatmullRom(m, x[1], x[2], x[3], x[4]))
              /\ (m % 2 = 0 => Eq("cosine", Rec.cosine, Linear(m, x[2], x[3])))
TNext == TBegin \/ TTurn \/ THyp \/ TPow \/ TInv \/ TCplx \/ TSpecial \/ TDir \/ TGamma \/ TInterp
TSpec == TInit /\ [][TNext]_l
=============================================================================
