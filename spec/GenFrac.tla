------------------------------- MODULE GenFrac -------------------------------
(* Calculations with fractions whose exact values stay small.                 *)
EXTENDS Small, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n
vars == <<script, n, v, q>>
Pick(S) == {RandomElement(S)}
Init == n = 0 /\ script = [t |-> <<"f", 0>>, ops |-> <<>>] /\ v = <<>> /\ q = [i \in 1..3 |-> <<0, 1>>]
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1 /\ UNCHANGED v
Small2(u) == RandomElement({RandomElement(-12..12), RandomElement(-12..12), RandomElement(-900..900)})
NonZero(u) == LET x == Small2(u) IN IF x = 0 THEN 1 ELSE x
Num == n >= 0 /\ \E i \in 1..3, k \in 1..2 : \E a \in {Small2(n)}, d \in {NonZero(n)} : Log(<<"num", i, a, d>>) /\ q' = [q EXCEPT ![i] = Norm(a, d)]
OK(x) == Abs(x[1]) < 1000 /\ x[2] < 1000
Do == \E op \in {"+", "-", "*", "/"}, i, a, b \in 1..3 :
        /\ op = "/" => q[b][1] # 0
        /\ OK(Calc(op, q[a], q[b])) /\ Log(<<"calc", i, op, a, b, RandomElement(0..1)>>) /\ q' = [q EXCEPT ![i] = Calc(op, q[a], q[b])]
Neg == \E i, a \in 1..3 : Log(<<"neg", i, a>>) /\ q' = [q EXCEPT ![i] = <<-q[a][1], q[a][2]>>]
Rel == \E a, b \in 1..3 : Log(<<"rel", a, b>>) /\ UNCHANGED q
Step == IF n < 3 THEN \E a \in {Small2(n)}, d \in {NonZero(n)} : Log(<<"num", n + 1, a, d>>) /\ q' = [q EXCEPT ![n + 1] = Norm(a, d)]
        ELSE n < MaxOps /\ (Num \/ Do \/ Neg \/ Rel)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<script, v, q>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
