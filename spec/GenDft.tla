------------------------------- MODULE GenDft -------------------------------
(* Histories of one plan: loads, transforms between three buffers (in place  *)
(* when dst = src), impulses.  Mode selects the way of calling:              *)
(*   0 raw pointers, temp of exactly the advertised size; 1 temp = null      *)
(*   2 univector overload; 3 bool direction argument                          *)
EXTENDS Dft, TLC, Json
CONSTANTS Variants, MaxOps, Family
VARIABLES script, n
vars == <<vars0, script, n>>
Pick(S) == {RandomElement(S)}
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Primes == {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137, 139}
Mixed == {6, 12, 48, 60, 45, 90, 96, 100, 105, 110, 120, 144, 150, 154, 165, 180, 200, 210, 243, 250, 270, 300, 303, 330, 343, 360, 404, 410, 420, 480, 500, 505, 606, 640, 707, 720, 729, 768, 810, 900, 1000, 1001}
LargePow2 == {2048, 4096, 8192, 16384}
Sizes == CASE Family = "md" -> {1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 16}
           [] OTHER -> {}
EvenSizes == {s \in Sizes : s % 2 = 0}
Real1(s) == 2 * s
Kinds == IF Family \in {"md"} THEN {"c", "r"} ELSE IF Family = "real" THEN {"r"} ELSE {"c"}
Pick1(u) == LET cls == RandomElement(1..10) IN
         IF cls <= 3 THEN RandomElement(1..100) ELSE IF cls <= 5 THEN RandomElement(Pow2) ELSE IF cls <= 7 THEN RandomElement(Primes)
         ELSE RandomElement(Mixed)
RandShape(k) ==
  IF Family = "md" THEN
    LET d == RandomElement(1..4)
        s == [i \in 1..d |-> RandomElement(Sizes)]
        e == IF k = "r" THEN [s EXCEPT ![d] = RandomElement({2, 4, 6, 8, 10, 12, 16})] ELSE s IN
    IF Prod(e) <= 500 THEN e ELSE IF k = "r" THEN <<RandomElement({1, 2, 3, 5, 8}), RandomElement({1, 2, 3, 4}), RandomElement({2, 6, 10})>>
                                  ELSE <<RandomElement({1, 3, 4, 7}), RandomElement({1, 2, 3, 5}), RandomElement({1, 2, 3, 4, 6})>>
  ELSE IF Family = "real" THEN <<2 * Pick1(k)>> ELSE <<Pick1(k)>>
Init == kind = "c" /\ shape = <<1>> /\ buf = [b \in Bufs |-> Unknown] /\ script = <<>> /\ n = 0
Start == /\ n = 0 /\ n' = 1
         /\ \E v \in Pick(Variants), k \in Pick(Kinds), f \in Pick(IF Family = "md" THEN 0..3 ELSE {0, 1}) : \E sh \in {RandShape(k)} :
            LET shf == SubSeq(sh, 1, Len(sh)) IN
            Create(k, shf) /\ script' = [v |-> v, k |-> k, f |-> f, shape |-> shf, ops |-> <<>>]
Add(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
\* symbolic content only: no vector is needed to know the domain and power
SLoad(b, dom) == Add(<<"L", b, dom, RandomElement(1..1000000)>>) /\ buf' = [buf EXCEPT ![b] = [dom |-> dom, v |-> <<>>, pow |-> 0]] /\ UNCHANGED <<kind, shape>>
SExec(dir, dst, src, mode) ==
  /\ Exec(dir, dst, src)
  /\ LET r == Result(dir, buf[src]) IN Add(<<"X", dir, dst, src, mode, RandomElement(0..3), r.dom, r.pow>>)
SImp == \E p \in Pick(0..Prod(shape)-1), q \in Pick(IF kind = "c" THEN 0..3 ELSE {0}), m \in Pick(0..3), dir \in Pick(IF kind = "c" THEN {0, 1} ELSE {0}), inp \in Pick({0, 1}) :
          Add(<<"I", dir, p, q, m, inp, RandomElement(0..3)>>) /\ UNCHANGED vars0
GStep == /\ n > 0 /\ n <= MaxOps
         /\ \E what \in Pick(1..10), b \in Pick(Bufs), c \in Pick(Bufs), dir \in Pick({0, 1}), m \in Pick(0..3), dm \in Pick({"t", "f"}) :
            IF what <= 2 \/ buf[c].dom = "x" \/ buf[c].pow >= 2 THEN SLoad(c, dm)
            ELSE IF what <= 4 THEN SImp
            ELSE SExec(IF kind = "c" THEN dir ELSE IF buf[c].dom = "t" THEN 0 ELSE 1, IF what = 5 THEN c ELSE b, c, m)
Finish == n = MaxOps + 1 /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<vars0, script>>
Next == Start \/ GStep \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
