------------------------------ MODULE GenReduce -----------------------------
EXTENDS Reduce, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n
vars == <<script, n>>
Pick(S) == {RandomElement(S)}
Small(t) == t \in {"u8", "i8"}
Lo(t) == IF t = "u8" THEN 0 ELSE IF t = "i8" THEN -1 ELSE -9
Hi(t) == IF Small(t) THEN 1 ELSE 9
Lengths(t) == IF t = "i8" THEN 0..60 ELSE IF t = "u8" THEN 0..70 ELSE 0..70
RandLen(t) == IF RandomElement(1..8) = 1 /\ ~Small(t) THEN RandomElement({127, 128, 129, 255, 300}) ELSE RandomElement(Lengths(t))
Vals(t, p, len) ==
  CASE p = 1 -> [i \in 1..len |-> IF Lo(t) < 0 THEN RandomElement(Lo(t)..(-1)) ELSE 1]
    [] p = 2 -> [i \in 1..len |-> RandomElement(1..Hi(t))]
    [] p = 3 -> [i \in 1..len |-> RandomElement(Lo(t)..Hi(t))]
    [] p = 4 -> LET k == IF len = 0 THEN 0 ELSE RandomElement({1, len, RandomElement(1..len)}) IN [i \in 1..len |-> IF i = k THEN Lo(t) ELSE Hi(t)]
    [] p = 5 -> LET k == IF len = 0 THEN 0 ELSE RandomElement({1, len, RandomElement(1..len)}) IN [i \in 1..len |-> IF i = k THEN Hi(t) ELSE IF Lo(t) < 0 THEN Lo(t) + 1 ELSE 0]
    [] p = 6 -> [i \in 1..len |-> IF i = len THEN Hi(t) ELSE 0]
Enc(s) == <<Len(s), s>>
Init == n = 0 /\ \E t \in {"f32", "f64", "i16", "i32", "i64", "u8", "i8"} : script = [v |-> t, ops |-> <<>>]
T == script.v
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Red == n >= 0 /\ \E kind \in Pick(0..10), mis \in Pick(0..7) : \E len \in {IF kind = 4 THEN RandomElement({1, 3, 5, 16, 33}) ELSE RandLen(T)}, p \in Pick(1..6), q \in Pick(1..6) :
        \E xs \in {Vals(T, p, len)}, ys \in {Vals(T, q, len)} : Log(<<"R", kind, mis, Enc(xs), Enc(ys)>>)
Product == n >= 0 /\ \E len \in {RandomElement(1..40)}, mis \in Pick(0..7) : \E k \in Pick(1..len) :
        \E xs \in {[i \in 1..len |-> IF i = k THEN 3 ELSE IF T = "u8" THEN 1 ELSE RandomElement({1, -1})]} : Log(<<"Q", mis, Enc(xs)>>)
Hor == n >= 0 /\ \E len \in Pick({1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32}), p \in Pick(1..6), q \in Pick(1..6) :
        \E xs \in {Vals(T, p, len)}, ys \in {Vals(T, q, len)} : Log(<<"V", Enc(xs), Enc(ys)>>)
Bits == n >= 0 /\ T \notin {"f32", "f64", "i8"} /\ \E len \in Pick({1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17}) :
        \E xs \in {[i \in 1..len |-> RandomElement(0..127)]} : Log(<<"B", Enc(xs)>>)
\* the accumulator object over a history of pieces
Chunk(len) == LET s == RandomElement(0..len) IN <<s, RandomElement({RandomElement(0..20), len - s}), RandomElement({0, 1, 2, 4, 8, 16})>>
Hist == n >= 0 /\ \E o \in Pick(NoOp \ {"mul"}), tr \in Pick(0..1), len \in Pick(1..70), p \in Pick(1..6), c \in Pick(1..(IF Small(T) THEN 1 ELSE 6)) :
        \E xs \in {Vals(T, p, len)} : \E cs \in {[i \in 1..c |-> Chunk(len)]} : Log(<<"C", o, tr, Enc(xs), c, cs>>)
\* histograms
Real == T \in {"f32", "f64"}
HType == IF Real THEN T ELSE RandomElement({T, T, "u64", "i8", "u8"})
TMax(h) == CASE h = "u8" -> 255 [] h = "i8" -> 127 [] OTHER -> 1000001
TMin(h) == CASE h \in {"u8", "u64"} -> 0 [] h = "i8" -> -128 [] OTHER -> -1000001
Tie(k, q) == (q * k) % 64 = 32
Sample(h, k) ==
  IF Real THEN LET q == RandomElement({-1000003, -1000001, 1000001, 1000003, -64, -1, 0, 64, 65, 63, 128} \cup {RandomElement(0..64)} \cup {RandomElement(0..64)} \cup {RandomElement(1..63)} \cup {RandomElement(-9..80)})
                 IN IF Tie(k, q) THEN (IF Tie(k, 0) THEN 1 ELSE 0) ELSE q
  ELSE LET q == RandomElement({TMax(h), TMin(h), 0, k - 1, k, k + 1} \cup (IF TMin(h) < 0 THEN {-1, -2} ELSE {}) \cup {RandomElement(0..k)} \cup {RandomElement(0..(2 * k))})
       IN IF q > TMax(h) THEN TMax(h) ELSE q
Bins(st) == IF st = 1 THEN RandomElement({1, 2, 5, 10}) ELSE RandomElement({1, 2, 3, RandomElement(4..40), 100, 126, 127, 128, 253, 254, 255, 256, 300})
HOp(h, k) == LET w == RandomElement(1..5) IN
             IF w = 1 THEN <<"s", Sample(h, k)>>
             ELSE IF w = 2 /\ Real THEN <<"n">>
             ELSE <<"v", Enc([i \in 1..RandomElement({1, 2, 3, 4, 7, 8, 16}) |-> Sample(h, k)])>>
HData == n >= 0 /\ \E st \in Pick(0..1), h \in {HType} : \E k \in {Bins(st)}, c \in Pick(1..8) : \E os \in {[i \in 1..c |-> HOp(h, k)]} :
        Log(<<"H", h, st, k, c, os>>)
HExpr == n >= 0 /\ \E st \in Pick(0..1), h \in {HType} : \E k \in {Bins(st)}, c \in Pick(1..5), len \in Pick(1..60) : \E xs \in {[i \in 1..len |-> Sample(h, k)]}, cs \in {[i \in 1..c |-> Chunk(len)]} :
        Log(<<"X", h, st, k, Enc(xs), c, cs>>)
HOnce == n >= 0 /\ \E st \in Pick(0..1), h \in {HType} : \E k \in {Bins(st)}, len \in Pick(0..60) : \E xs \in {[i \in 1..len |-> Sample(h, k)]} :
        Log(<<"O", h, st, k, Enc(xs)>>)
Step == n < MaxOps /\ (Red \/ Product \/ Hor \/ Bits \/ Hist \/ HData \/ HExpr \/ HOnce)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
