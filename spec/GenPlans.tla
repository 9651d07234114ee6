------------------------------ MODULE GenPlans ------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxThreads, MaxOps
VARIABLES script, n
Pick(S) == {RandomElement(S)}
CSizes == {1, 2, 4, 12, 48, 60, 64, 97, 101, 128, 150, 202, 256, 300, 360, 509, 1024, 2048, 2187, 4096}
RSizes == {2, 4, 16, 24, 96, 202, 206, 256, 600, 2048}
\* few keys per run so that threads meet
Init == script = <<>> /\ n = 0
Start == /\ n = 0 /\ n' = 1
         /\ \E T \in Pick(2..MaxThreads), a \in Pick(CSizes), b \in Pick(CSizes), c \in Pick(RSizes), pr \in Pick({0, 1}) :
            script' = [keys |-> <<<<0, pr, a>>, <<0, RandomElement({0, 1}), b>>, <<1, pr, c>>, <<0, 1 - pr, a>>>>,
                       threads |-> [t \in 1..T |-> <<>>]]
AddOp == /\ n > 0 /\ n <= MaxOps /\ n' = n + 1
         /\ \E t \in Pick(DOMAIN script.threads), w \in Pick(1..12), k \in Pick(1..4), d \in Pick({0, 1}) :
            script' = [script EXCEPT !.threads[t] = Append(@, IF w <= 4 THEN <<"G", k, 0>> ELSE IF w <= 8 THEN <<"X", k, d>> ELSE IF w <= 10 THEN <<"U", k, d>>
                                                               ELSE IF w = 11 THEN <<"C", 0, 0>> ELSE <<"S", k, d>>)]
Finish == n = MaxOps + 1 /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Start \/ AddOp \/ Finish
Spec == Init /\ [][Next]_<<script, n>>
=============================================================================
