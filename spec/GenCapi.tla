------------------------------- MODULE GenCapi -------------------------------
(* Histories over three slots.  m: slot -> <<kind, sizes, usable>>.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n, m
vars == <<script, n, m>>
Pick(S) == {RandomElement(S)}
Init == n = 0 /\ script = [ops |-> <<>>] /\ m = [s \in 1..3 |-> <<"none", <<>>, FALSE>>]
Log(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Kinds == {"dft", "dft2", "dft3", "dftmd", "real", "real2", "real3", "realmd", "dct", "fir", "conv", "iir"}
Filters == {"fir", "conv", "iir"}
Dims(k, u) == CASE k \in {"dft", "real", "dct"} -> 1 [] k \in {"dft2", "real2"} -> 2 [] k \in {"dft3", "real3"} -> 3 [] OTHER -> RandomElement(1..4)
Sizes(u, d) == [i \in 1..d |-> IF d = 1 THEN RandomElement({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 20, 24, 27, 30, 32, 48, 64})
                               ELSE IF d = 2 THEN RandomElement({1, 2, 3, 4, 5, 6, 8}) ELSE IF d = 3 THEN RandomElement(1..4) ELSE RandomElement(1..3)]
Evened(p) == [p EXCEPT ![Len(p)] = IF @ % 2 = 0 THEN @ ELSE IF @ < 4 THEN 2 ELSE @ - 1]
Plain == { <<0, 0, 1, 0, 0>>, <<0, 0, 0, 1, 0>>, <<0, 0, 0, 0, 1>>, <<0, 0, -1, 0, 0>> }
Other == { <<-1, 0, 1, 0, 0>>, <<1, 0, 0, 1, 0>>, <<0, 1, 1, 0, 0>>, <<0, -1, 1, 0, 1>>, <<1, 1, 0, 0, 1>>, <<0, 0, 1, 1, 0>>, <<0, 0, 1, -1, 1>>, <<0, 0, 0, 2, 1>> }
Secs(u, c) == FlattenSeq([i \in 1..c |-> IF i <= 3 THEN RandomElement(Other) ELSE RandomElement(Plain)])
Taps(u, c) == [i \in 1..c |-> RandomElement(-3..3)]
Params(k, u) ==
  CASE k \in {"fir", "conv"} -> Taps(u, RandomElement({1, 2, 3, 4, 5, 7, 8, 16, 17, 33}))
    [] k = "iir" -> Secs(u, RandomElement({1, 2, 3, 4, 5, 7, 8, 12, 64}))
    [] k \in {"real", "real2", "real3", "realmd"} -> Evened(Sizes(u, Dims(k, u)))
    [] OTHER -> Sizes(u, Dims(k, u))
Extra(k, u) == IF k = "conv" THEN RandomElement({0, 1, 3, 4, 8, 32}) ELSE RandomElement(0..1)
\* slot, kind, precision, no array, memory fails at, extra, count, parameters
Op(s, k, null, fail, p, u) == <<"new", s, k, RandomElement(0..1), null, fail, Extra(k, u), Len(p)>> \o p
New == n >= 0 /\ \E k \in Kinds : \E s \in Pick(1..3) : \E p \in {Params(k, n)} :
         Log(Op(s, k, 0, 0, p, n)) /\ m' = [m EXCEPT ![s] = <<k, p, TRUE>>]
\* wrong ones
Spoil(k, p, u) ==
  LET c == RandomElement(1..3)  i == RandomElement(1..Len(p)) IN
  CASE k \in {"fir", "conv"} -> <<>>
    [] k = "iir" -> IF c = 1 THEN <<>> ELSE Secs(u, RandomElement({65, 66, 100, 128, 129}))
    [] k \in {"dft", "dct"} -> <<-RandomElement(1..2)>>
    [] k \in {"dftmd", "realmd"} /\ c = 1 -> <<>>
    [] k \in {"real", "real2", "real3", "realmd"} /\ c # 3 -> [p EXCEPT ![Len(p)] = @ - 1]
    [] k \in {"dftmd", "realmd"} -> [p EXCEPT ![i] = 0]
    [] OTHER -> IF Len(p) = 1 \/ c = 3 THEN [p EXCEPT ![1] = -RandomElement(1..2)] ELSE [p EXCEPT ![i] = 0]
Wrong == n >= 0 /\ \E k \in Kinds : \E s \in Pick(1..3), c \in Pick(1..3) : \E p \in {Params(k, n)} :
           /\ IF c = 1 /\ k \in {"dftmd", "realmd", "fir", "conv", "iir"} THEN Log(Op(s, k, 1, 0, p, n)) ELSE Log(Op(s, k, 0, 0, Spoil(k, p, n), n))
           /\ m' = [m EXCEPT ![s] = <<"none", <<>>, FALSE>>]
\* memory runs out: the object may have been made, or not
Starved == n >= 0 /\ \E k \in Kinds : \E s \in Pick(1..3) : \E p \in {Params(k, n)}, f \in Pick(1..12) :
           Log(Op(s, k, 0, f, p, n)) /\ m' = [m EXCEPT ![s] = <<"none", <<>>, FALSE>>]
Delete == n >= 0 /\ \E s \in 1..3 : \E c \in 1..2 : Log(<<"del", s>>) /\ m' = [m EXCEPT ![s] = <<"none", <<>>, FALSE>>]
Total(p) == FoldLeft(LAMBDA x, y : x * y, 1, p)
Transform == \E s \in 1..3 : m[s][3] /\ m[s][1] \notin Filters /\ \E c \in 1..12 :
             /\ IF c <= 1 THEN Log(<<"query", s>>)
                ELSE IF c <= 6 THEN Log(<<"imp", s, RandomElement(0..1), RandomElement(0..(Total(m[s][2]) - 1)), RandomElement(0..3), RandomElement(0..1), RandomElement(0..1)>>)
                ELSE Log(<<"round", s, RandomElement(1..100000), RandomElement(0..1), RandomElement(0..1)>>)
             /\ UNCHANGED m
Block(u) == LET b == RandomElement({0, 1, 2, 3, 5, 8, 13, 20}) IN <<b>> \o [i \in 1..b |-> RandomElement(-2..2)]
Filter == \E s \in 1..3 : m[s][3] /\ m[s][1] \in Filters /\ \E c \in 1..12 :
             /\ IF c <= 2 THEN Log(<<"reset", s>>) ELSE Log(<<"proc", s, RandomElement(0..1)>> \o Block(n))
             /\ UNCHANGED m
Thread == n >= 0 /\ \E c \in 1..2 : Log(<<"thread">>) /\ UNCHANGED m
Step == n < MaxOps /\ (New \/ Wrong \/ Starved \/ Delete \/ Transform \/ Filter \/ Thread)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<script, m>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
