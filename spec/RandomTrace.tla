---------------------------- MODULE RandomTrace -----------------------------
(* Recorded histories of three generators and up to three expressions.        *)
EXTENDS KfrRandom, TraceUtil
VARIABLES l, g, e
vars == <<l, g, e>>
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
Blank == [i \in 1..16 |-> 0]
TInit == l = 1 /\ g = <<Blank, Blank, Blank>> /\ e = <<>>
TNew == Is("init") /\ g' = <<Blank, Blank, Blank>> /\ e' = <<>>
Others == Eq("states", Rec.st, g')
Drawn(bytes) == g' = [g EXCEPT ![Rec.g] = After(@, bytes)] /\ Others
TSet == Is("S") /\ g' = [g EXCEPT ![Rec.g] = Rec.b] /\ e' = e /\ Others
TSeed == Is("I") /\ g' = [g EXCEPT ![Rec.g] = NextState(Rec.b)] /\ e' = e /\ Others
TCopy == Is("C") /\ g' = [g EXCEPT ![Rec.h] = g[Rec.g]] /\ e' = e /\ Others
TBits == Is("B") /\ e' = e /\ Eq("bits", Rec.out, Bytes(g[Rec.g], Rec.n)) /\ Drawn(Rec.n)
Size(t) == CASE t \in {"u8", "i8"} -> 1 [] t \in {"u16", "i16"} -> 2 [] t \in {"u32", "i32", "f32"} -> 4 [] OTHER -> 8
Man(t, bs) == IF t = "f32" THEN [i \in 1..Len(bs) |-> Man32(bs[i])] ELSE [i \in 1..Len(bs) |-> Man64(bs[i])]
Words(s, t, k) == Fix(Group(Bytes(s, k * Size(t)), Size(t)))
Value(t, s, k) == IF t \in {"f32", "f64"} THEN Man(t, Words(s, t, k)) ELSE Words(s, t, k)
TUni == Is("U") /\ e' = e /\ Eq("uniform", Rec.out, Value(Rec.t, g[Rec.g], Rec.n)) /\ Drawn(Rec.n * Size(Rec.t))
\* real ranges: endpoints and values in 64ths, rounded down
TRange == Is("G") /\ e' = e /\ Eq("in range", {i \in 1..Rec.n : Rec.out[i] < Rec.lo \/ Rec.out[i] >= Rec.hi}, {}) /\ Drawn(Rec.n * Size(Rec.t))
\* ranges where the arithmetic is exact: position within the range
TExact == Is("X") /\ e' = e /\ Eq("position", Rec.out, Value(Rec.t, g[Rec.g], Rec.n)) /\ Drawn(Rec.n * Size(Rec.t))
TInt == Is("R") /\ e' = e /\ Eq("offset", Rec.out, [i \in 1..Rec.n |-> Scaled(Words(g[Rec.g], Rec.t, Rec.n)[i], Rec.r)]) /\ Drawn(Rec.n * Size(Rec.t))
TNormal == Is("N") /\ e' = e /\ Eq("finite", Rec.far, FALSE) /\ Drawn((Rec.n + (Rec.n % 2)) * Size(Rec.t))
TMake == Is("M") /\ g' = g /\ e' = Append(e, [kind |-> Rec.kind, ref |-> Rec.ref, own |-> g[Rec.g]]) /\ Others
EType(k) == IF k = "i" THEN "i32" ELSE "f32"
EValue(k, s, w) == IF k = "i" THEN [i \in 1..w |-> Scaled(Words(s, "i32", w)[i], 100)] ELSE Value("f32", s, w)
TDraw == /\ Is("V")
         /\ LET x == e[Rec.e] s == IF x.ref = 0 THEN x.own ELSE g[x.ref] IN
            /\ Eq("values", Rec.out, EValue(x.kind, s, Rec.w))
            /\ IF x.ref = 0 THEN g' = g /\ e' = [e EXCEPT ![Rec.e].own = After(@, Rec.w * 4)]
               ELSE g' = [g EXCEPT ![x.ref] = After(@, Rec.w * 4)] /\ e' = e
            /\ Others
\* equal states filling equal arrays; how many steps it takes is the evaluation's business
TFill == /\ Is("F") /\ e' = e
         /\ Eq("same values", Rec.a, Rec.b) /\ Eq("same state", Rec.st[Rec.g], Rec.st[Rec.h])
         /\ Eq("in range", {i \in 1..Len(Rec.a) : Rec.a[i] < 0 \/ Rec.a[i] > 8388607}, {})
         /\ g' = [g EXCEPT ![Rec.g] = Rec.st[Rec.g], ![Rec.h] = Rec.st[Rec.h]] /\ Others
         /\ Eq("reachable", \E k \in 1..Len(Rec.a) : Run(g[Rec.g], k) = Rec.st[Rec.g], TRUE) /\ Eq("inside", Rec.ok, TRUE)
TNext == TNew \/ TSet \/ TSeed \/ TCopy \/ TBits \/ TUni \/ TRange \/ TExact \/ TInt \/ TNormal \/ TMake \/ TDraw \/ TFill
TSpec == TInit /\ [][TNext]_vars
=============================================================================
