------------------------------- MODULE GenWav --------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n, phase
vars == <<script, n, phase>>
Pick(S) == {RandomElement(S)}
Types == {"i16", "i24", "i32", "f32", "f64"}
Files == {"i8", "i16", "i24", "i32", "i64", "f32", "f64"}
Init == n = 0 /\ phase = 0 /\ script = [ops |-> <<>>]
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Caps(u) == CASE RandomElement(1..8) = 1 -> RandomElement(0..110) [] RandomElement(1..4) = 1 -> RandomElement(104..600) [] OTHER -> 1000000000
Pair(u) == LET a == RandomElement(Types) IN <<a, IF RandomElement(1..3) = 1 THEN a ELSE RandomElement(Files)>>
Create == phase = 0 /\ \E p \in {Pair(n)}, ch \in Pick({1, 2, 2, 3, 4, 5, 6, 8}), w64 \in Pick({0, 0, 0, 1}), cap \in {Caps(n)} :
            \E dev \in {IF cap = 1000000000 THEN RandomElement({0, 0, 1}) ELSE 0} :
            Log(<<"N", p[1], p[2], ch, RandomElement({8000, 44100, 96000, 192000}), w64, dev, cap>>) /\ phase' = 1
Write == phase = 1 /\ \E k \in Pick({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 30, 31, 33, 40, 64}) : Log(<<"W", k>>) /\ UNCHANGED phase
WriteCh == phase = 1 /\ \E k \in Pick({0, 1, 2, 3, 5, 8, 13}) : Log(<<"Y", k>>) /\ UNCHANGED phase
Close == phase = 1 /\ n > 3 /\ \E kind \in Pick({0, 0, 1, 1, 2}), c \in {CASE RandomElement(1..4) = 1 -> RandomElement(1..120) [] RandomElement(1..4) = 1 -> RandomElement(1..9) [] OTHER -> 0} :
            Log(<<"E", kind, c>>) /\ phase' = 2
Flac == phase = 0 /\ \E ch \in Pick({1, 2, 3, 8}), bs \in Pick({16, 17, 32, 50}), k \in Pick({1, 15, 16, 17, 33, 64, 100}), c \in {IF RandomElement(1..6) = 1 THEN 1000000 ELSE 0} :
            Log(<<"L", ch, bs, k, c>>) /\ phase' = 2
Mp3 == phase = 0 /\ \E x \in Pick({0}), c \in Pick({0, 1, 1}) : Log(<<"M", c>>) /\ phase' = 2
Open == phase >= 2 /\ \E t \in Pick(Types) : Log(<<"O", t>>) /\ phase' = 3
Read == phase = 3 /\ \E kind \in Pick({"R", "R", "V"}), k \in Pick({0, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 32, 33, 60}) : Log(<<kind, k>>) /\ UNCHANGED phase
ReadCh == phase = 3 /\ \E k \in Pick({0, 1, 2, 5, 9, 1000}) : Log(<<"K", k>>) /\ UNCHANGED phase
Seek == phase = 3 /\ \E o \in {0, 1, 2} :
          \E off \in {LET k == RandomElement({0, 1, 2, 3, 4, 5, 7, 10, 16, 20, 33, 50, 1000000}) IN
              CASE o = 0 -> (IF RandomElement(1..6) = 1 THEN -k ELSE k) [] o = 2 -> (IF RandomElement(1..5) = 1 THEN k ELSE -k) [] OTHER -> RandomElement({k, -k})} :
            Log(<<"S", off, o>>) /\ UNCHANGED phase
\* the lengths 1000000 stand for beyond everything, -1000000 before
Step == n < MaxOps /\ (Create \/ (Flac /\ RandomElement(1..2) = 1) \/ (Mp3 /\ RandomElement(1..4) = 1) \/ Write \/ WriteCh \/ Close \/ (Open /\ (phase = 2 \/ RandomElement(1..4) = 1)) \/ Read \/ ReadCh \/ Seek)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<script, phase>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
