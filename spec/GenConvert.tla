----------------------------- MODULE GenConvert ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n
vars == <<script, n>>
Pick(S) == {RandomElement(S)}
T == {"i8", "i16", "i24", "i32", "i64", "f32", "f64"}
Init == n = 0 /\ script = [ops |-> <<>>]
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Value(u) == LET b == RandomElement({0, 0, 1, 2, 3, 3, 3, 4}) IN
  <<b, CASE b = 0 -> RandomElement(-130..130) [] b \in {1, 2} -> RandomElement({0, 1, 2, 3, RandomElement(0..300)})
         [] b = 3 -> RandomElement(-1023..1023) [] OTHER -> RandomElement({-3, -2, 2, 3, 100, -100, 1000000, -1000000})>>
Vals(u) == [i \in 1..RandomElement(1..9) |-> Value(i)]
Neighbours(u) == LET x == RandomElement(-40000..40000) IN [i \in 1..9 |-> <<0, x + i>>]
Conv == n >= 0 /\ \E ti \in T, to \in T : \E api \in Pick(0..3), mis \in Pick(0..3) :
          \E vs \in {IF RandomElement(1..3) = 1 THEN Neighbours(ti) ELSE Vals(ti)} : Log(<<"C", ti, to, api, mis, Len(vs), vs>>)
Inter == n >= 0 /\ \E op \in {"I", "D"}, ch \in {1, 2, 3, 4, 5, 6, 7, 8} : \E ti \in Pick(T), to0 \in Pick(T), k \in Pick({0, 1, 2, 3, 4, 5, 7, 8, 9, 11}), mis \in Pick(0..3), api \in Pick(0..2) :
          Log(<<op, ti, IF RandomElement(1..2) = 1 THEN ti ELSE to0, api, mis, ch, k, RandomElement(0..500)>>)
Step == n < MaxOps /\ (Conv \/ Inter)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
