---------------------------- MODULE GenTranspose ----------------------------
EXTENDS Shape, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n
vars == <<script, n>>
Pick(S) == {RandomElement(S)}
Types == {"u8", "i16", "f32", "f64", "c32", "c64", "v3", "v4d"}
Init == n = 0 /\ \E t \in Types : script = [v |-> t, ops |-> <<>>]
Flip(s) == IF RandomElement(0..1) = 1 THEN Reverse(s) ELSE s
Log(sh, mode, mis) == script' = [script EXCEPT !.ops = Append(@, <<mode, mis, Len(sh), sh>>)] /\ n' = n + 1
Shapes(k) ==
  CASE k \in 1..3 -> <<RandomElement(1..40), RandomElement(1..40)>>
    [] k = 4 -> Flip(<<RandomElement(2..12), RandomElement(101..1000)>>)
    [] k = 5 -> Flip(<<RandomElement(7..40), RandomElement(101..400)>>)
    [] k = 6 -> LET a == RandomElement(8..60) q == RandomElement(2..9) IN Flip(<<a, a * q + RandomElement({0, 0, 1, 2, a - 1, RandomElement(0..(a - 1))})>>)
    [] k = 7 -> [i \in 1..3 |-> RandomElement(1..12)]
    [] k = 8 -> [i \in 1..RandomElement(4..5) |-> RandomElement(1..5)]
    [] k = 9 -> LET a == RandomElement(1..6) IN Flip(<<a * RandomElement(1..6), a, RandomElement({a, a + 1, 1, 2 * a})>>)
    [] k = 10 -> <<RandomElement(101..130), RandomElement(101..130)>>
    [] k = 11 -> [i \in 1..RandomElement(2..3) |-> RandomElement({0, 1, 2, 5, 7})]
    [] k = 12 -> <<RandomElement(1..50)>>
Step == n < MaxOps /\ \E k \in Pick(1..12), mode \in Pick(0..2), mis \in Pick(0..3) : \E s \in {Shapes(k)} : Log(s, mode, mis)
\* tables of cycles too big for the stack
Huge == n = 0 /\ \E a \in Pick(2..3), c \in Pick(70000..72000), f \in Pick(0..1), mode \in Pick(1..2) : script.v \in {"f32", "c64"} /\ Log(IF f = 1 THEN <<a, c>> ELSE <<c, a>>, mode, 0)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
HugeSpec == Init /\ [][Huge \/ (n = 1 /\ Finish)]_vars
=============================================================================
