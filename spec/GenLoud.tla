------------------------------ MODULE GenLoud --------------------------------
(* Histories of a loudness meter.  kind "b": packets whose filtered energy is *)
(* exact and which leave the filter at rest; "n": noise (no resets, since the *)
(* filter goes on); "t": tones.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n, left
vars == <<script, n, left>>
Pick(S) == {RandomElement(S)}
Init == n = 0 /\ script = <<>> /\ left = 0
Sp(i) == RandomElement({-1, 0, 1, 1, 2, 2, 3, 4, 5, 6, 19, RandomElement(7..18)})
Rates == {8000, 44100, 48000, 96000}
Begin == /\ n = 0 /\ n' = 1
         /\ \E f \in Pick(1..6), c \in Pick({1, 1, 2, 2, 3, 5, 6}), k \in Pick({"b", "b", "b", "b", "n"}) :
            /\ script' = [k |-> k, t |-> RandomElement({"f32", "f64"}), rate |-> RandomElement(Rates), factor |-> f, sp |-> [i \in 1..(IF f > 3 /\ c > 2 THEN 2 ELSE c) |-> Sp(i)],
                          gate |-> RandomElement(IF k = "n" THEN {350} ELSE {1, 350, 2050, 15050}), ops |-> <<>>]
            /\ left' = IF f > 3 THEN 500 ELSE 400
Log(op) == n > 0 /\ script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Levels(i) == IF script.k = "n" THEN RandomElement({0, 200, 400, 800})
             ELSE RandomElement({0, 0, 1, 2, 3, 5, 10, 15, 30, 50, 100, 200, 300, 1000})
Play == \E c \in Pick({1, 1, 2, 3, 4, 5, script.factor, 4 * script.factor, RandomElement(1..(15 * script.factor)), RandomElement(1..(31 * script.factor))}) :
          /\ left >= c /\ left' = left - c
          /\ Log(<<"p", c, RandomElement({0, 0, 1, 7}), RandomElement(0..2)>> \o [i \in 1..Len(script.sp) |-> Levels(i)])
Read == Log(<<"read">>) /\ UNCHANGED left
Reset == script.k = "b" /\ Log(<<"reset">>) /\ UNCHANGED left
Run == Log(<<RandomElement({"start", "stop", IF n > 0 THEN "start" ELSE "stop"})>>) /\ UNCHANGED left
Step == n > 0 /\ n < MaxOps /\ (Play \/ (\E c \in 1..3 : Read) \/ Reset \/ Run \/ (\E c \in 1..5 : Play))
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<script, left>>
Next == Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
