------------------------------- MODULE GenDct -------------------------------
EXTENDS Dct, TLC, Json
CONSTANTS Variants, MaxOps
VARIABLES script, n
Pick(S) == {RandomElement(S)}
Sizes == (1..70) \cup {96, 100, 101, 103, 127, 128, 144, 150, 202, 243, 256}
Init == size = 1 /\ buf = [b \in Bufs |-> Unknown] /\ script = <<>> /\ n = 0
Start == n = 0 /\ n' = 1 /\ \E v \in Pick(Variants), N \in Pick(Sizes) : Create(N) /\ script' = [v |-> v, N |-> N, ops |-> <<>>]
Add(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
SLoad(b, dom) == Add(<<"L", b, dom, RandomElement(1..1000000)>>) /\ buf' = [buf EXCEPT ![b] = [dom |-> dom, v |-> <<>>, pow |-> 0]] /\ UNCHANGED size
SExec(dir, dst, src, mode) ==
  /\ Exec(dir, dst, src)
  /\ Add(<<"X", dir, dst, src, mode, RandomElement(0..3), IF dir = 0 THEN "k" ELSE "t", buf[src].pow + dir>>)
GStep == /\ n > 0 /\ n <= MaxOps
         /\ \E what \in Pick(1..10), b \in Pick(Bufs), c \in Pick(Bufs), dir \in Pick({0, 1}), m \in Pick(0..2), dm \in Pick({"t", "k"}), p \in Pick(0..(size-1)) :
            IF what <= 2 \/ buf[c].dom = "x" \/ buf[c].pow >= 2 THEN SLoad(c, dm)
            ELSE IF what <= 4 THEN Add(<<"I", dir, p, m, RandomElement({0, 1}), RandomElement(0..3)>>) /\ UNCHANGED vars0
            ELSE SExec(IF buf[c].dom = "t" THEN 0 ELSE 1, IF what = 5 THEN c ELSE b, c, m)
Finish == n = MaxOps + 1 /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<vars0, script>>
Next == Start \/ GStep \/ Finish
Spec == Init /\ [][Next]_<<vars0, script, n>>
=============================================================================
