------------------------------ MODULE GenWindow ------------------------------
EXTENDS Window, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n
vars == <<script, n>>
Init == n = 0 /\ script = <<>>
Log(op) == script' = Append(script, op) /\ n' = n + 1
List(len, lo, hi) == [i \in 1..len |-> RandomElement(lo..hi)]
Put(s) == <<Len(s)>> \o s
\* lengths near the widths of vectors as often as any other
Length(lo, i) == RandomElement({RandomElement(lo..70), RandomElement({x \in {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65} : x >= lo})})
Bins == \E kind \in {RandomElement(CosineKinds)} : \E k \in {Length(1, n)} :
          Log(<<"bins", kind, k, RandomElement(0..100), RandomElement(0..k)>>)
Win == \E kind \in {RandomElement(ShapeKinds)} : \E k \in {Length(2, n)} :
          Log(<<"win", kind, k, RandomElement(1..(IF kind = "planck_taper" THEN 10 ELSE 20)), RandomElement(0..k)>>)
Blocks(len, i) == LET a == RandomElement(0..len) b == RandomElement(a..len) IN <<a, b - a, len - b>>
Ton == \E u \in {RandomElement({4, 6})} : \E len \in {RandomElement(0..50)} : \E ks \in {RandomElement(1..4)} :
         Log(<<"tone", u>> \o Put(List(ks, 0, u - 1)) \o Put(List(len, -9, 9)) \o Put(Blocks(len, n)))
Mi == \E c \in {RandomElement(1..4)} : \E len \in {RandomElement(1..40)} :
        Log(<<"mix", c, len>> \o List(c * len, -50, 50) \o List(4, -3, 3))
Sha == \E kind \in {RandomElement({"hardclip", "saturate1", "saturate2", "tanh", "poly"})} : \E len \in {RandomElement(1..40)} :
        Log(<<"shape", kind, RandomElement(1..3)>> \o List(3, -3, 3) \o Put(List(len, -9, 9)))
Uni == Log(<<"units", RandomElement(-5..5), RandomElement(-4..4), RandomElement(40..80)>>)
Sig == Log(<<"signal", RandomElement(2..60)>>)
Osc == Log(<<"osc", RandomElement(1..40), RandomElement(-100..100), RandomElement(0..40)>>)
Step == n < MaxOps /\ (Bins \/ Bins \/ Win \/ Win \/ Win \/ Ton \/ Ton \/ Mi \/ Sha \/ Uni \/ Sig \/ Osc)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
