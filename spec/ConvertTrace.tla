---------------------------- MODULE ConvertTrace -----------------------------
EXTENDS Big, TraceUtil
VARIABLES l
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
V(x) == <<x[1], SubSeq(x, 2, Len(x))>>
\* full scales; reals are recorded on a grid of 2^-30
Scale(t) == CASE t = "i8" -> Num(127) [] t = "i16" -> Num(32767) [] t = "i24" -> Num(8388607) [] t = "i32" -> Num(2147483647)
              [] t = "i64" -> <<1, <<5807, 5477, 368, 3372, 922>>>> [] OTHER -> Num(1073741824)
Bits(t) == CASE t = "i8" -> 8 [] t = "i16" -> 16 [] t = "i24" -> 24 [] t = "f32" -> 25 [] t = "i32" -> 32 [] t = "f64" -> 53 [] OTHER -> 64
IsInt(t) == t \notin {"f32", "f64"}
BClip(v, s) == IF ~BLeq(v, s) THEN s ELSE IF ~BLeq(Neg(s), v) THEN Neg(s) ELSE v
\* one step of the target, more where the arithmetic itself has fewer bits
Slack(t) == CASE t = "i64" -> 4096 [] t = "f32" -> 160 [] t = "f64" -> 2 [] OTHER -> 1
Good(ti, to, v, r) ==
  IF ti = to THEN BEq(v, r)
  ELSE LET si == Scale(ti) so == Scale(to) c == BClip(v, si) IN
       /\ BLeq(BAbs(BSub(BMul(r, si), BMul(c, so))), BMul(Num(Slack(to)), si))
       /\ (to # "i64" => BLeq(BAbs(r), so))
       /\ (BEq(c, si) => BEq(r, so))
       /\ (BEq(c, Neg(si)) /\ to # "i64" => BEq(r, Neg(so)))
       /\ (v[2] = <<>> => r[2] = <<>>)
Bad(ti, to, in, out) == {i \in 1..Len(in) : ~Good(ti, to, V(in[i]), V(out[i]))}
Order(in, out) == {p \in (1..Len(in)) \X (1..Len(in)) : BLeq(V(in[p[1]]), V(in[p[2]])) /\ ~BLeq(V(out[p[1]]), V(out[p[2]]))}
Holds(a, b) == Bits(a) > Bits(b) /\ IsInt(b)
TInit == l = 1
TNew == Is("init")
TConv == /\ Is("C") /\ Eq("count", Len(Rec.out), Len(Rec.in)) /\ Eq("inside", Rec.ok, TRUE)
         /\ Eq("wrong values", Bad(Rec.ti, Rec.to, Rec.in, Rec.out), {})
         /\ Eq("out of order", Order(Rec.in, Rec.out), {})
         /\ (Holds(Rec.to, Rec.ti) => Eq("not restored", {i \in 1..Len(Rec.in) : ~BEq(V(Rec.back[i]), BClip(V(Rec.in[i]), Scale(Rec.ti)))}, {}))
\* in: per channel, out: interleaved (or the other way round)
Flat(x, ch, n) == [i \in 1..(ch * n) |-> x[((i - 1) % ch) + 1][((i - 1) \div ch) + 1]]
Shape(x, ch, n) == Len(x) = ch /\ \A c \in 1..ch : Len(x[c]) = n
TInter == /\ Is("I") /\ Eq("shape", Shape(Rec.in, Rec.ch, Rec.n), TRUE) /\ Eq("count", Len(Rec.out), Rec.ch * Rec.n)
          /\ Eq("inside", Rec.ok, TRUE) /\ Eq("wrong values", Bad(Rec.ti, Rec.to, Flat(Rec.in, Rec.ch, Rec.n), Rec.out), {})
TDeinter == /\ Is("D") /\ Eq("shape", Shape(Rec.out, Rec.ch, Rec.n), TRUE) /\ Eq("count", Len(Rec.in), Rec.ch * Rec.n)
            /\ Eq("inside", Rec.ok, TRUE) /\ Eq("wrong values", Bad(Rec.ti, Rec.to, Rec.in, Flat(Rec.out, Rec.ch, Rec.n)), {})
TNext == TNew \/ TConv \/ TInter \/ TDeinter
TSpec == TInit /\ [][TNext]_l
=============================================================================
