------------------------------- MODULE GenNpy --------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n
vars == <<script, n>>
Pick(S) == {RandomElement(S)}
Codes == <<"u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f4", "f8", "c8", "c16", "b1">>
Init == n = 0 /\ script = [ops |-> <<>>]
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Shape(d) == [i \in 1..d |-> IF d = 1 THEN RandomElement({1, 2, 3, 7, 16, 33, 64}) ELSE RandomElement({1, 1, 2, 3, 4, 5})]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Rare(S, z) == IF RandomElement(1..4) = 1 THEN RandomElement(S) ELSE z
Save == n >= 0 /\ \E t \in 0..12 : \E d \in Pick(1..(IF t \in {0, 8, 11} THEN 4 ELSE 3)), view \in Pick({0, 0, 1, 2, 3}) :
          \E sh \in {Shape(d)} : \E cut \in Pick({0, 0, 0, 1, 2, 7, 8, 63, RandomElement(1..200)}) :
            Log(<<"S", t, d, d, sh, view, cut>>)
Damage(z) == LET k == RandomElement({0, 0, 1, 1, 2, 4}) IN
  <<k, [i \in 1..k |-> <<RandomElement(0..2), RandomElement(0..127), RandomElement({32, 39, 40, 41, 44, 48, 49, 57, 58, 60, 62, 91, 92, 93, 123, 125, 0, 255, RandomElement(0..255)})>>]>>
Header(ver, t, d, sh, code, pre, perm, missing, dup, extra, style, big, have, cut, dmg) ==
  <<"L", t, d, ver, RandomElement({"c", "f"}), pre, code, Len(sh), sh, perm, missing, dup, extra, style, big, have, cut, dmg[1], dmg[2]>>
Own(t) == IF t \in {0, 4, 12} THEN "|" ELSE RandomElement({"<", ">"})
\* a good file
Good == n >= 0 /\ \E t \in 0..12 : \E d \in Pick(1..(IF t \in {0, 8, 11} THEN 4 ELSE 3)) : \E sh \in {Shape(d)} :
          Log(Header(RandomElement({1, 2, 3}), t, d, sh, t, Own(t), RandomElement(0..5), 0, 0, 0, 0, 0, Prod(sh) + RandomElement({0, 0, 2}), 0, <<0, <<>>>>))
\* a file with one thing wrong
Bad == n >= 0 /\ \E t \in 0..12, w \in 1..9 : \E d \in Pick(1..(IF t \in {0, 8, 11} THEN 4 ELSE 3)) : \E sh \in {Shape(IF w = 1 THEN 1 + (d % 3) ELSE d)} :
          Log(Header(IF w = 2 THEN RandomElement({0, 4, 255}) ELSE RandomElement(1..3), t, d,
                     IF w = 3 THEN [sh EXCEPT ![1] = 0] ELSE sh,
                     IF w = 4 THEN RandomElement(0..12) ELSE t,
                     IF w = 5 THEN RandomElement({"x", "_", "=", "|", "<", ">"}) ELSE Own(t),
                     RandomElement(0..5), IF w = 6 THEN RandomElement(1..3) ELSE 0, IF w = 7 THEN RandomElement(1..3) ELSE 0,
                     IF w = 8 THEN RandomElement(1..7) ELSE 0, RandomElement({0, 0, 1, 2}), IF w = 9 THEN RandomElement(1..5) ELSE 0,
                     Prod(sh), 0, <<0, <<>>>>))
\* too little data, any cut
Short == n >= 0 /\ \E t \in 0..12 : \E d \in Pick(1..(IF t \in {0, 8, 11} THEN 4 ELSE 3)) : \E sh \in {Shape(d)} :
          Log(Header(RandomElement(1..3), t, d, sh, t, Own(t), 0, 0, 0, 0, 0, 0, RandomElement(0..Prod(sh)), RandomElement({0, 1, 5, RandomElement(0..260)}), <<0, <<>>>>))
\* damaged bytes in the header
Broken == n >= 0 /\ \E t \in 0..12 : \E d \in Pick(1..(IF t \in {0, 8, 11} THEN 4 ELSE 3)) : \E sh \in {Shape(d)} : \E k \in 1..3 :
          Log(Header(RandomElement(1..3), t, d, sh, t, Own(t), RandomElement(0..5), 0, 0, Rare(1..7, 0), 0, 0, Prod(sh), RandomElement({0, 0, 3}), Damage(n)))
\* a header whose text ends early
Unclosed == n >= 0 /\ \E t \in 0..12 : \E d \in Pick(1..3) : \E sh \in {Shape(d)} : \E k \in 1..2 :
          Log(Header(RandomElement(1..3), t, d, sh, t, Own(t), RandomElement(0..5), Rare(1..3, 0), Rare(1..3, 0), Rare(1..4, 0), RandomElement(0..2), 0, Prod(sh), 0,
                     <<1, <<<<RandomElement({3, 3, 3, 4}), RandomElement(0..IF k = 1 THEN 30 ELSE 150), 0>>>>>>))
Step == n < MaxOps /\ (Save \/ Good \/ Bad \/ Short \/ Broken \/ Unclosed)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
