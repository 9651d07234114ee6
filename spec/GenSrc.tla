------------------------------- MODULE GenSrc --------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n
vars == <<script, n>>
Pick(S) == {RandomElement(S)}
Init == /\ n = 0 /\ script = [t |-> <<>>, ops |-> <<>>]
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Open == /\ n = 0
        /\ \E t \in {"f32", "f64", "c32", "c64"} : \E q \in Pick({4, 4, 4, 4, 6}) : \E up \in Pick(1..(IF q = 4 THEN 9 ELSE 3)), down \in Pick(1..12), seed \in Pick(1..1000) :
             script' = [script EXCEPT !.t = <<t, q, up, down, seed>>]
        /\ n' = 1
Size(z) == RandomElement({0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, RandomElement(0..40)})
Extra(z) == RandomElement({0, 0, 0, 0, 1, 5, 40, -1, -2, -5, -100})
Ops == \/ n >= 1 /\ \E e \in Pick({1}) : Log(<<"P", Size(n), Extra(n)>>)
       \/ n >= 1 /\ \E e \in Pick({1}) : Log(<<"U", Size(n)>>)
       \/ n >= 1 /\ \E e \in Pick({1}) : Log(<<"U", Size(n)>>)
       \/ n >= 1 /\ \E e \in Pick({1}) : Log(<<"K", Size(n), Extra(n)>>)
       \/ n >= 1 /\ \E a \in Pick({200, 1000, 46341, 99991}), b \in Pick({1, 7, 45000}) : Log(<<"F", a, b>>)
       \/ n >= 1 /\ \E x \in Pick(-60..60) : Log(<<"Q", x>>)
Step == n < MaxOps /\ (Open \/ Ops)
\* the real filter, once per script
Finish == n = MaxOps /\ n' = n + 1 /\ LET f == [script EXCEPT !.ops = Append(@, <<"C", RandomElement({1, 1, 3})>>)] IN
          PrintT(<<"SCRIPT", ToJson(f)>>) /\ UNCHANGED script
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
