---------------------------- MODULE GenDispatch ------------------------------
(* Histories of objects over changes of the selection, and processors.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n, live   \* live: id -> <<kind, size of a transform, samples still to feed>>
vars == <<script, n, live>>
Pick(S) == {RandomElement(S)}
Init == n = 0 /\ script = <<>> /\ live = <<>>
Small(i) == RandomElement(-4..4)
Ints(k) == [i \in 1..k |-> Small(i)]
Log(op) == script' = Append(script, op) /\ n' = n + 1
Sel(i) == RandomElement({1, 1, 4, 6, 7, 8, 8, RandomElement(1..8)})
Select == Log(<<"sel", Sel(n)>>) /\ UNCHANGED live
\* processors as there are: all the features of the lower sets and some of the next one, and some hidden by a system or a hypervisor
Chain == << {0}, {1}, {2}, {3}, {4, 5}, {6, 7, 13}, {8, 9, 10, 11, 12} >>
RECURSIVE Bits(_)
Bits(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN 2 ^ x + Bits(s \ {x})
Some(S, i) == {x \in S : RandomElement(1..4) > 1}
Proc(i) == LET k == RandomElement(0..7)
               full == UNION {Chain[j] : j \in 1..k}
               next == IF k < 7 THEN Some(Chain[k + 1], i) ELSE {}
               hidden == RandomElement({{}, {}, {4}, {5}, {6}, {13}}) IN
           (full \cup next) \ hidden
Detect == n < 12 /\ Log(<<"detect", Bits(Proc(n))>>) /\ UNCHANGED live
Ids == DOMAIN live
New == {i \in 1..3 : i \notin Ids}
Sizes(i) == RandomElement({1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 32, 60, 64, 100, 128, 256, RandomElement(1..140)})
Type(i) == RandomElement({0, 0, 1, 2, 3})
Section(i) == <<Small(i), RandomElement(-2..2), RandomElement(0..2), IF i <= 2 THEN RandomElement({0, -1, 1}) ELSE 0, 0>>
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Joined(Tail(s))
Spec1(i) ==
  LET k == RandomElement({"fir", "fir", "iir", "iir", "conv", "conv", "src", "src", "dft", "dft", "rdft", "md", "dct"})
      t == Type(i)
      s == Sizes(i) IN
  CASE k = "fir" -> LET c == RandomElement({1, 2, 3, 4, 5, 8, 9, 16, 17, 33}) IN <<k, t, c>> \o Ints(c)
    [] k = "iir" -> LET c == RandomElement(1..6) IN <<k, t % 2, c>> \o Joined([j \in 1..c |-> Section(j)])
    [] k = "conv" -> LET c == RandomElement({1, 2, 5, 8, 17, 40}) IN <<k, t, RandomElement({2, 4, 8, 16, 32}), c>> \o Ints(c)
    [] k = "src" -> <<k, t, RandomElement(1..6), RandomElement(1..6)>>
    [] k = "md" -> <<k, t % 2, RandomElement({1, 2, 3, 4, 8}), RandomElement({1, 2, 4, 5, 8, 16})>>
    [] k \in {"rdft", "dct"} -> <<k, t % 2, s + (s % 2)>>
    [] OTHER -> <<k, t % 2, s>>
Make == \E id \in Pick(New) : \E sp \in {Spec1(n)} :
          /\ Log(<<"make", id>> \o sp)
          /\ live' = [x \in Ids \cup {id} |-> IF x = id THEN <<sp[1], IF sp[1] = "md" THEN sp[3] * sp[4] ELSE sp[3]>> ELSE live[x]]
Put == \E id \in Ids : \E k \in {RandomElement({0, 1, 2, 3, 5, 8, 16, 17, 31, RandomElement(0..40)})} :
         LET c == IF live[id][1] \in {"fir", "iir", "conv", "src"} THEN k ELSE live[id][2] IN
         Log(<<"put", id, RandomElement(0..2), c>> \o Ints(c)) /\ UNCHANGED live
Restart == \E id \in Ids : Log(<<"reset", id>>) /\ live[id][1] \in {"fir", "iir", "conv"} /\ UNCHANGED live
Drop == \E id \in Ids : Log(<<"drop", id>>) /\ live' = [x \in Ids \ {id} |-> live[x]]
Once == \E a \in {RandomElement(1..20)} : \E b \in {RandomElement(1..20)} : Log(<<"once", Type(n), RandomElement(0..1), a>> \o Ints(a) \o <<b>> \o Ints(b)) /\ UNCHANGED live
Step == n < MaxOps /\ (Select \/ Make \/ (\E c \in 1..2 : Put) \/ (n % 4 = 3 /\ (Restart \/ Drop)) \/ Once \/ Detect)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<script, live>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
