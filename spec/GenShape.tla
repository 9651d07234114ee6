------------------------------ MODULE GenShape ------------------------------
EXTENDS Shape, TLC, Json
CONSTANTS MaxOps, Exhaustive
VARIABLES script, n
vars == <<script, n>>
Pick(S) == {RandomElement(S)}
Enc(s) == <<Len(s), s>>
Small == {0, 1, 2, 3, 7, Inf}
RandShape(r, S) == [i \in 1..r |-> RandomElement(S)]
\* the argument shapes are drawn from a common result so that most combinations are compatible
Derive(r) == LET k == RandomElement(0..Len(r)) IN [i \in 1..k |-> IF RandomElement(1..4) = 1 THEN RandomElement({1, Inf}) ELSE r[Len(r) - k + i]]
DeriveF(r, k) == [i \in 1..k |-> IF RandomElement(1..3) = 1 THEN 1 ELSE r[Len(r) - k + i]]
ExSet == UNION {[1..r -> {0, 1, 2, 3, Inf}] : r \in 0..2}
Init == /\ n = 0
        /\ IF Exhaustive THEN \E a \in ExSet, b \in ExSet : script = [ops |-> <<<<"P", Enc(a), Enc(b)>>>>]
           ELSE script = [ops |-> <<>>]
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Pair == n >= 0 /\ \E w \in Pick(1..3), r \in Pick(0..4) : \E c \in {RandShape(r, Small)} :
        \E a \in {IF w = 1 THEN RandShape(RandomElement(0..4), Small) ELSE Derive(c)}, b \in {IF w = 2 THEN RandShape(r, Small) ELSE Derive(c)} : Log(<<"P", Enc(a), Enc(b)>>)
Triple == n >= 0 /\ \E w \in Pick(1..3), r \in Pick(0..3) : \E c \in {RandShape(r, Small)} :
        \E x \in {Derive(c)}, y \in {IF w = 1 THEN RandShape(RandomElement(0..3), Small) ELSE Derive(c)}, z \in {Derive(c)} : Log(<<"T", Enc(x), Enc(y), Enc(z)>>)
Single == n >= 0 /\ \E r \in Pick(1..5), u \in Pick(1..4) : \E s \in {RandShape(r, {0, 1, 2, 3, 5, 6})} : Log(<<"S", Enc(s), u>>)
Flat == n >= 0 /\ \E r \in Pick(1..5) : \E s \in {RandShape(r, IF r = 1 THEN 1..40 ELSE IF r = 2 THEN 1..7 ELSE 1..4)} : Log(<<"F", Enc(s)>>)
Iter == n >= 0 /\ \E r \in Pick(1..4) : \E s \in {RandShape(r, 0..3)} : \E t \in {[i \in 1..r |-> s[i] + RandomElement(1..3)]} : \E d \in Pick(1..r), w \in Pick(1..3) :
        Log(<<"I", Enc(s), Enc(t), IF w = 1 THEN d - 1 ELSE r - 1>>)
Eval == n >= 0 /\ \E r \in Pick(1..3), w \in Pick({1, 2, 3, 4, 5, 7, 9, 17, 19}) : \E sh0 \in {RandShape(r, 1..4)} : \E sh \in {[sh0 EXCEPT ![r] = w]} :
        \E ka \in Pick(1..r), kb \in Pick(1..r), fl \in Pick(0..3) : \E a \in {DeriveF(sh, ka)}, b \in {DeriveF(sh, kb)}, c \in {DeriveF(sh, 1)} :
        Log(<<"E", Enc(a), Enc(b), Enc(c), IF a[ka] = 1 /\ b[kb] = 1 /\ c[1] = 1 THEN fl % 2 ELSE fl>>)  \* an unbounded result cannot be stored
\* four axes are nested loops of their own, five and more are counted through
EvalHigh == n >= 0 /\ \E r \in Pick(4..5), w \in Pick({1, 2, 3, 4, 5, 9, 17}) : \E sh0 \in {RandShape(r, IF RandomElement(1..6) = 1 THEN 0..3 ELSE 1..3)} : \E sh \in {[sh0 EXCEPT ![r] = w]} :
        \E kb \in Pick({1, 2, r}), fl \in Pick({0, 3}) : \E a \in {DeriveF(sh, r)}, b \in {DeriveF(sh, kb)}, c \in {DeriveF(sh, 1)} :
        Log(<<"E", Enc(a), Enc(b), Enc(c), IF a[r] = 1 /\ b[kb] = 1 /\ c[1] = 1 THEN 0 ELSE fl>>)
Step == n < MaxOps /\ ~Exhaustive /\ (Pair \/ Triple \/ Single \/ Flat \/ Iter \/ Eval \/ EvalHigh)
Finish == n = (IF Exhaustive THEN 0 ELSE MaxOps) /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
