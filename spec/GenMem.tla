------------------------------- MODULE GenMem --------------------------------
(* Histories: m is id -> references still held.                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n, m, ids
vars == <<script, n, m, ids>>
Pick(S) == {RandomElement(S)}
Init == n = 0 /\ script = [ops |-> <<>>] /\ m = <<>> /\ ids = 0
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Aligns == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096, 32768}
BadAligns == {0, 3, 24, 48, 65, 96, 100, 32769, 65536, 1000000}
Add(id) == [x \in DOMAIN m \cup {id} |-> IF x = id THEN 1 ELSE m[x]]
Drop(f, id) == IF f[id] = 1 THEN [x \in DOMAIN f \ {id} |-> f[x]] ELSE [f EXCEPT ![id] = @ - 1]
Bytes(u) == RandomElement({0, 1, 2, 7, 8, 63, 64, 65, 128, 500, RandomElement(0..1500)})
Alloc == n >= 0 /\ \E k \in 1..4, how \in 0..2 : \E e \in Pick({1, 4, 8, 16}), a \in Pick(Aligns) :
           /\ Log(<<"A", how, IF how = 2 THEN 1 ELSE e, Bytes(n), a, 0>>) /\ ids' = ids + 1 /\ m' = Add(ids + 1)
Refused == n >= 0 /\ \E k \in 1..3, how \in 0..2 : \E e \in Pick({1, 4, 8, 16}) :
           /\ \E c \in Pick(1..3) : Log(<<"A", how, IF how = 2 THEN 1 ELSE e,
                 IF c = 1 THEN -RandomElement(IF how = 2 \/ e = 1 THEN 1..4 ELSE 1..8) ELSE Bytes(n),
                 IF c = 2 /\ how # 1 THEN RandomElement(BadAligns) ELSE 64, IF c = 3 \/ (c = 2 /\ how = 1) THEN 1 ELSE 0>>)
           /\ UNCHANGED <<m, ids>>
Ref == \E id \in DOMAIN m : \E k \in 1..2 : Log(<<"R", id>>) /\ m' = [m EXCEPT ![id] = @ + 1] /\ UNCHANGED ids
Give == \E id \in DOMAIN m : \E k \in 1..3 : Log(<<"D", id, IF m[id] = 1 THEN 1 ELSE 0, RandomElement(0..2)>>) /\ m' = Drop(m, id) /\ UNCHANGED ids
Realloc == \E id \in DOMAIN m : \E k \in 1..3 : \E sz \in Pick({0, 1, 5, 64, 300, 1000}), a \in Pick(Aligns) :
           /\ Log(<<"X", id, sz, a, 0, IF m[id] = 1 THEN 1 ELSE 0>>)
           /\ IF sz = 0 THEN m' = Drop(m, id) /\ UNCHANGED ids ELSE m' = Drop(Add(ids + 1), id) /\ ids' = ids + 1
ReallocBad == \E id \in DOMAIN m \cup {0} : \E c \in Pick(1..3) :
           /\ Log(<<"X", id, IF c = 1 THEN -RandomElement(1..3) ELSE 100, IF c = 2 THEN RandomElement(BadAligns) ELSE 64, IF c = 3 THEN 1 ELSE 0,
                    IF id # 0 /\ m[id] = 1 THEN 1 ELSE 0>>) /\ UNCHANGED <<m, ids>>
FromNull == n >= 0 /\ \E a \in Pick(Aligns), sz \in Pick(1..200) : Log(<<"X", 0, sz, a, 0, 0>>) /\ ids' = ids + 1 /\ m' = Add(ids + 1)
Other == n >= 0 /\ \E op \in {<<"Z">>, <<"N", 0>>, <<"N", 1>>, <<"U", RandomElement(0..100)>>, <<"W", RandomElement(0..600)>>} : Log(op) /\ UNCHANGED <<m, ids>>
\* giving up the last one in the threads
ThreadsLast == \E id \in DOMAIN m : m[id] = 1 /\ Log(<<"T", id, RandomElement(2..4), RandomElement({0, 1, 50}), 1>>) /\ m' = Drop(m, id) /\ UNCHANGED ids
ThreadsOnly == \E id \in DOMAIN m : Log(<<"T", id, RandomElement(2..4), RandomElement({0, 1, 50, 2000}), 0>>) /\ UNCHANGED <<m, ids>>
Step == n < MaxOps /\ (Alloc \/ Refused \/ Ref \/ Give \/ Realloc \/ ReallocBad \/ FromNull \/ Other \/ ThreadsLast \/ ThreadsOnly)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<script, m, ids>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
