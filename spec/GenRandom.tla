----------------------------- MODULE GenRandom ------------------------------
EXTENDS KfrRandom, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n, ne
vars == <<script, n, ne>>
Pick(S) == {RandomElement(S)}
Init == n = 0 /\ ne = 0 /\ script = [ops |-> <<>>]
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
G == 1..3
RBytes(u) == [i \in 1..16 |-> RandomElement(0..255)]
\* a block with extreme values for every way of cutting it into numbers
Extreme(u) == LET w == RandomElement({1, 2, 4, 8, 16}) lo == RandomElement({0, 0, 255}) top == RandomElement({0, 127, 128, 255, 63, 64}) keep == RandomElement(1..16) IN
  [i \in 1..16 |-> IF keep = i THEN RandomElement(0..255) ELSE IF i % w = 0 THEN top ELSE lo]
Target(u) == CASE RandomElement(1..4) = 1 -> [i \in 1..16 |-> 255] [] RandomElement(1..4) = 1 -> [i \in 1..16 |-> 0] [] OTHER -> Extreme(u)
Ns == {1, 2, 3, 4, 5, 7, 8, 16, 17}
FT == {"f32", "f64"}
IT == {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"}
Lim(t) == CASE t \in {"u8", "i8"} -> 255 [] t \in {"u16", "i16"} -> 65535 [] OTHER -> 4194303
Base(t) == CASE t = "u8" -> 0 [] t = "i8" -> -128 [] t = "u16" -> 0 [] t = "i16" -> -32768 [] t \in {"u32", "u64"} -> 0 [] OTHER -> -1000000
Set == n >= 0 /\ \E g \in G : \E t \in {Target(g)} : Log(<<"S", g, PrevState(t)>>) /\ UNCHANGED ne
Seed == n >= 0 /\ \E g \in G, k \in {2, 4} : Log(<<"I", g, k, RBytes(g)>>) /\ UNCHANGED ne
Copy == n >= 0 /\ \E g \in G, h \in G : g # h /\ Log(<<"C", g, h>>) /\ UNCHANGED ne
Bits == n >= 0 /\ \E g \in G, k \in Pick({1, 2, 3, 5, 8, 15, 16, 17, 24, 31, 32, 33, 40, 48, 64}) : Log(<<"B", g, k>>) /\ UNCHANGED ne
Uni == n >= 0 /\ \E g \in G, t \in Pick(FT \cup IT), k \in Pick(Ns) : Log(<<"U", g, t, k>>) /\ UNCHANGED ne
Ends == LET a == RandomElement({0, 64, -64, 6400, 64 * RandomElement(-2000..2000), RandomElement(-100..100), 64000000, -64000000})
            d == RandomElement({1, 2, 63, 64, 65, 64 * RandomElement(1..1000), 100}) IN <<a, a + (IF a > 1000000 \/ a < -1000000 THEN ((d + 63) \div 64) * 64 ELSE d)>>
FRange == n >= 0 /\ \E g \in G, t \in Pick(FT), k \in Pick(Ns) : \E r \in {Ends} : Log(<<"G", g, t, r[1], r[2], k>>) /\ UNCHANGED ne
XRange == n >= 0 /\ \E g \in G, t \in Pick(FT), e \in Pick(-3..6), neg \in Pick(0..1), k \in Pick(Ns) : Log(<<"X", g, t, e, neg, k>>) /\ UNCHANGED ne
IRange == n >= 0 /\ \E g \in G, t \in Pick(IT), k \in Pick(Ns) : \E r \in {RandomElement({1, 2, 3, 10, RandomElement(1..255), Lim(t), RandomElement(1..Lim(t))})} :
          \E b \in {IF r = Lim(t) THEN Base(t) ELSE Base(t) + RandomElement(0..(Lim(t) - r))} : Log(<<"R", g, t, b, r, k>>) /\ UNCHANGED ne
Normal == n >= 0 /\ \E g \in G, t \in Pick(FT), k \in Pick(Ns), mu \in Pick({0, 100}) : Log(<<"N", g, t, mu, k>>) /\ UNCHANGED ne
Make == n >= 0 /\ ne < 3 /\ \E g \in G, kind \in Pick({"u", "r", "i"}), ref \in Pick(0..1) : Log(<<"M", g, kind, ref>>) /\ ne' = ne + 1
Draw == n >= 0 /\ ne > 0 /\ \E e \in 1..ne, w \in Pick({1, 2, 4, 8, 16}) : Log(<<"V", e, w>>) /\ UNCHANGED ne
Fill == n >= 0 /\ \E g \in G, h \in G, c \in Pick(1..40), mis \in Pick(0..3), t \in Pick(FT) : g # h /\ Log(<<"F", g, h, t, c, mis>>) /\ UNCHANGED ne
Step == n < MaxOps /\ (Set \/ Seed \/ Copy \/ Bits \/ Uni \/ FRange \/ XRange \/ IRange \/ Normal \/ Make \/ Draw \/ Fill)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<script, ne>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
