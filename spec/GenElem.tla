------------------------------- MODULE GenElem --------------------------------
EXTENDS Elem, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n
vars == <<script, n>>
Init == n = 0 /\ script = <<>>
Log(op) == script' = Append(script, op) /\ n' = n + 1
R(a, b) == RandomElement(a..b)
\* few and many quarter turns
Turns(i) == RandomElement({R(-9, 9), R(-400, 400)})
Tur == \E t \in {R(1, 3)} : Log(<<"turn", t, R(-6, 6), Turns(n)>>)
Hy == Log(<<"hyp", R(1, 60), R(1, 60)>>)
\* as far as doubles of full precision go
Furthest(b) == CASE b = 2 -> 1020 [] b = 3 -> 640 [] b = 5 -> 430 [] b = 7 -> 360 [] b = 10 -> 300
Po == \E b \in {RandomElement({2, 3, 5, 7, 10})} :
        Log(<<"pow", b, RandomElement({R(-12, 12), R(-90, 90), R(-Furthest(b), Furthest(b))}), R(-5, 5), R(-9, 9), R(1, 9)>>)
Inv == \E t \in {R(1, 3)} : Log(<<"inv", t, R(-6, 6), R(-2, 2)>>)
Cpl == \E t \in {R(1, 3)} : Log(<<"cplx", R(-20, 20), R(-20, 20), t, R(-2, 2), R(-12, 12), R(1, 9), R(1, 9), R(-6, 6)>>)
Spe == Log(<<"special", RandomElement(Functions), RandomElement(Classes)>>)
Dir == Log(<<"dir", RandomElement({"0", "1", "-1", "inf", "-inf"}), RandomElement({"0", "-0", "1", "-1", "inf", "-inf"})>>)
Gam == Log(<<"gamma", R(1, 12)>>)
Ipl == Log(<<"interp", R(0, 4), R(-9, 9), R(-9, 9), R(-9, 9), R(-9, 9)>>)
Step == n < MaxOps /\ (Tur \/ Tur \/ Hy \/ Po \/ Po \/ Inv \/ Cpl \/ Cpl \/ Spe \/ Spe \/ Spe \/ Dir \/ Gam \/ Ipl)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
