------------------------------ MODULE GenExpr -------------------------------
(* Expressions are built on a stack, node by node, and evaluated along the way*)
EXTENDS Expr, TLC, Json
CONSTANTS MaxOps
VARIABLES stk, script, n
vars == <<stk, script, n>>
Pick(S) == {RandomElement(S)}
Lens == {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33}
Rnd(s, lo, hi) == SubSeq([i \in 1..s |-> RandomElement(lo..hi)], 1, s)
Top == stk[Len(stk)]
Snd == stk[Len(stk) - 1]
Sh == ShapeOf(Top)
RECURSIVE HasPh(_)
HasPh(t) == t.k = "ph" \/ (t.k = "f2" /\ t.m > 0) \/ \E c \in {"a", "b", "c"} \cap DOMAIN t : HasPh(t[c])
Leaf(t) == t.k \in {"ten", "cnt", "seq", "sc", "lam"}
RECURSIVE Size(_)
Size(t) == IF t.k \in {"f2", "cat"} THEN 1 + Size(t.a) + Size(t.b) ELSE IF t.k = "f3" THEN 1 + Size(t.a) + Size(t.b) + Size(t.c) ELSE IF Leaf(t) \/ t.k = "lin" THEN 1 ELSE 1 + Size(t.a)
Finite(s) == \A i \in 1..Len(s) : s[i] # Inf
Push(t) == stk' = Append(stk, t) /\ n' = n + 1 /\ UNCHANGED script
Repl(c, t) == stk' = Append(SubSeq(stk, 1, Len(stk) - c), t) /\ n' = n + 1 /\ UNCHANGED script
Room == n < MaxOps /\ (IF Len(stk) = 0 THEN TRUE ELSE stk[Len(stk)].k # "adj") /\ Len(stk) < 3
Can == n < MaxOps /\ Len(stk) > 0
Gate(k) == n >= 0 /\ \E g \in Pick(1..k) : g = 1
Un0 == Can /\ Top.k # "adj" /\ Len(Sh) > 0 /\ Size(Top) < 8
Un == Can /\ Gate(4) /\ Top.k # "adj" /\ Len(Sh) > 0 /\ Size(Top) < 8
PTen1 == Room /\ (IF stk = <<>> THEN TRUE ELSE Gate(2)) /\ \E w \in Pick(Lens), m \in Pick(0..2) : \E d \in {Rnd(w, 0 - 9, 9)} : Push([k |-> "ten", s |-> <<w>>, d |-> d, m |-> m])
PTen2 == Room /\ \E r \in Pick(1..5), c \in Pick({1, 2, 3, 4, 5, 8, 9, 17}), m \in Pick(0..2) : \E d \in {Rnd(r * c, 0 - 9, 9)} : Push([k |-> "ten", s |-> <<r, c>>, d |-> d, m |-> m])
\* a second operand of a shape that broadcasts with the first one
PLike == Room /\ Can /\ Len(Sh) > 0 /\ Finite(Sh) /\ Prod(Sh) < 120 /\ \E r \in Pick(1..2), m \in Pick(0..2) :
         \E s \in {[i \in 1..MinI(r, Len(Sh)) |-> IF RandomElement(1..3) = 1 THEN 1 ELSE Sh[Len(Sh) - MinI(r, Len(Sh)) + i]]} :
         \E s2 \in {SubSeq(s, 1, Len(s))} : \E d \in {Rnd(Prod(s2), 0 - 9, 9)} : Push([k |-> "ten", s |-> s2, d |-> d, m |-> m])
PCnt == Room /\ Gate(2) /\ \E r \in Pick(1..2), lam \in Pick(1..2), v \in Pick(0..9) : \E st \in {Rnd(r, 0 - 5, 9)} : Push([k |-> IF lam = 1 THEN "lam" ELSE "cnt", v |-> v, st |-> st])
PSeq == Room /\ Gate(2) /\ \E w \in Pick(1..5) : \E d \in {Rnd(w, 0 - 9, 9)} : Push([k |-> "seq", d |-> SubSeq(d \o d \o d \o d \o d, 1, 5)])
PSc == Room /\ Can /\ Len(Sh) > 0 /\ \E v \in Pick(0..9) : Push([k |-> "sc", v |-> v])
PLin == Room /\ Gate(2) /\ \E q \in Pick({1, 2, 4, 8, 16}), e \in Pick({TRUE, FALSE}), t \in Pick({TRUE, FALSE}), v \in Pick(0..9), g \in Pick(0..3) :
        LET z == e /\ q = 1 /\ v < 5 IN Push([k |-> "lin", v |-> v, w |-> v + q * g, n |-> IF z THEN 1 ELSE IF e THEN q + 1 ELSE q, e |-> e, t |-> t \/ z])
USlice == Un /\ \E tr \in Pick(1..3) : \E st \in {IF tr = 1 THEN Const(Len(Sh), 0) ELSE Rnd(Len(Sh), 0, IF Len(Sh) = 1 THEN 6 ELSE 2)} :
          \E sz \in {[i \in 1..Len(Sh) |-> IF RandomElement(1..3) = 1 THEN Inf ELSE RandomElement(0..(IF Len(Sh) = 1 THEN 34 ELSE 9))]} :
          Repl(1, [k |-> "slice", a |-> Top, st |-> st, n |-> SubSeq(sz, 1, Len(sz))])
UPad == Un /\ \E v \in Pick(10..19) : Repl(1, [k |-> "pad", a |-> Top, v |-> v])
Revable(t) == t.k = "ten" \/ (t.k = "slice" /\ t.a.k = "ten") \/ (t.k = "cat" /\ Len(ShapeOf(t)) = 1 /\ t.a.k = "ten" /\ t.b.k = "ten") \/ (t.k = "rev" /\ t.a.k = "ten")
URev == Un0 /\ Gate(2) /\ Revable(Top) /\ n > 0 /\ Repl(1, [k |-> "rev", a |-> Top])
UCast == Un /\ Repl(1, [k |-> "cast", a |-> Top])
UResh == Un /\ Finite(Sh) /\ Prod(Sh) > 0 /\ Prod(Sh) < 200 /\ \E p \in Pick({q \in 1..8 : Prod(Sh) % q = 0}), one \in Pick(1..3) :
         Repl(1, [k |-> "resh", a |-> Top, s |-> IF one = 1 THEN <<Prod(Sh)>> ELSE <<p, Prod(Sh) \div p>>])
UDim == Un /\ Gate(3) /\ Len(Sh) = 1 /\ Repl(1, [k |-> "dim2", a |-> Top])
UAdj == Un0 /\ Len(Sh) = 1 /\ Len(stk) = 1 /\ Repl(1, [k |-> "adj", a |-> Top])
UF1 == Un /\ \E op \in Pick({"neg", "abs", "sqr"}) : Repl(1, [k |-> "f1", op |-> IF op = "sqr" /\ ~Leaf(Top) THEN "neg" ELSE op, a |-> Top])
UHandle == Un /\ \E k \in Pick({"ph", "own", "ref"}) : Repl(1, [k |-> k, a |-> Top])
Bin == Can /\ Len(stk) >= 2 /\ Top.k # "adj" /\ Size(Top) + Size(Snd) < 10
BF2 == Bin /\ Clean(<<ShapeOf(Snd), Sh>>) /\ \E op \in Pick({"add", "sub", "mul", "min", "max"}), late \in Pick(0..3) :
       Repl(2, [k |-> "f2", op |-> IF op = "mul" /\ ~(Leaf(Top) /\ Leaf(Snd)) THEN "sub" ELSE op, a |-> Snd, b |-> Top, m |-> IF ~HasPh(Snd) /\ Len(Sh) = 1 /\ Sh[1] # 1 /\ Len(ShapeOf(Snd)) = 1 THEN late ELSE 0])
BCat == Bin /\ Len(Sh) > 0 /\ Len(ShapeOf(Snd)) = Len(Sh) /\ \E ax \in Pick(1..Len(Sh)) : Repl(2, [k |-> "cat", ax |-> ax, a |-> Snd, b |-> Top])
BF3 == Can /\ Len(stk) = 3 /\ Top.k # "adj" /\ Size(Top) + Size(Snd) + Size(stk[1]) < 11 /\ Len(ShapeOf(stk[1])) = 1 /\ Len(ShapeOf(Snd)) = 1 /\ Len(Sh) <= 1
       /\ Clean(<<ShapeOf(stk[1]), ShapeOf(Snd), Sh>>) /\ \E op \in Pick({"add", "clamp", "fma"}) :
       Repl(3, [k |-> "f3", op |-> IF op = "fma" /\ ~(Leaf(Top) /\ Leaf(Snd) /\ Leaf(stk[1])) THEN "clamp" ELSE op, a |-> stk[1], b |-> Snd, c |-> Top])
Emit(ev) == script' = [script EXCEPT !.ops = Append(@, ev)] /\ n' = n + 1
Dst(s) == [i \in 1..Len(s) |-> IF s[i] # Inf /\ s[i] > 0 /\ s[i] < 100 /\ RandomElement(1..4) # 1 THEN s[i] ELSE IF Len(s) = 1 THEN RandomElement(0..40) ELSE RandomElement(1..10)]
Wd == {0, 1, 2, 4, 8, 16}
Eval == Can /\ Len(Sh) > 0 /\ (IF Len(Sh) = 1 THEN TRUE ELSE Gate(2)) /\ Len(script.ops) < 8 /\ \E x \in Pick(0..1), w \in Pick(Wd), ax \in Pick(1..2), dk \in Pick(0..4), mis \in Pick(0..3), full \in Pick(1..3) :
  \E d0 \in {IF Len(Sh) = 1 /\ x = 1 THEN Dst(<<Inf>> \o Sh) ELSE Dst(Sh)} : \E d \in {SubSeq(d0, 1, Len(d0))} :
  \E st \in {IF full = 1 \/ Top.k = "adj" THEN Const(Len(d), 0) ELSE [i \in 1..Len(d) |-> RandomElement(0..MinI(5, d[i]))]},
     sz \in {[i \in 1..Len(d) |-> IF full <= 2 THEN Inf ELSE RandomElement(0..(d[i] + 1))]} :
  \E adj \in {Top.k = "adj"} :
  /\ Emit([e |-> "E", t |-> Top, w |-> w, ax |-> IF Len(d) = Len(Sh) /\ Len(d) = 2 THEN ax ELSE Len(d), dk |-> dk, mis |-> mis, d |-> IF adj /\ Len(d) = 2 THEN <<d[2]>> ELSE d,
           st |-> IF adj THEN <<0>> ELSE SubSeq(st, 1, Len(st)), n |-> IF adj THEN <<Inf>> ELSE SubSeq(sz, 1, Len(sz))])
  /\ IF adj THEN stk' = <<>> ELSE UNCHANGED stk
GetAt == Can /\ Gate(2) /\ Len(Sh) > 0 /\ Len(script.ops) < 8 /\ Top.k # "adj" /\ \E lw \in Pick(0..5), ax0 \in Pick(1..2) :
  LET ax == MinI(ax0, Len(Sh)) w == 2^lw room == [i \in 1..Len(Sh) |-> MinI(Sh[i], IF i = ax THEN 50 ELSE 9) - (IF i = ax THEN w ELSE 1)] IN
  /\ \A i \in 1..Len(Sh) : room[i] >= 0
  /\ \E ix \in {[i \in 1..Len(Sh) |-> RandomElement(0..room[i])]} : Emit([e |-> "G", t |-> Top, w |-> w, ax |-> ax, ix |-> SubSeq(ix, 1, Len(ix))])
  /\ UNCHANGED stk
Pack == Can /\ Len(stk) >= 2 /\ Len(script.ops) < 8 /\ Len(Sh) = 1 /\ Len(ShapeOf(Snd)) = 1 /\ Top.k # "adj" /\ Clean(<<Sh, ShapeOf(Snd)>>) /\ \E w \in Pick(Wd), len \in Pick(1..35) :
  /\ Emit([e |-> "P", t |-> Snd, u |-> Top, w |-> w, n |-> LET c == Common(Sh, ShapeOf(Snd)) IN IF c[1] # Inf /\ c[1] < 100 THEN c[1] ELSE len])
  /\ UNCHANGED stk
Drop == Can /\ Gate(3) /\ Size(Top) > 5 /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ n' = n + 1 /\ UNCHANGED script
Step == (PTen1 \/ PTen1 \/ PTen2 \/ PLike \/ PCnt \/ PSeq \/ PSc \/ PLin \/ USlice \/ UPad \/ URev \/ URev \/ UCast \/ UResh \/ UDim \/ UAdj \/ UF1 \/ UHandle \/ BF2 \/ BF2 \/ BF2 \/ BCat \/ BCat \/ BCat \/ BF3 \/ BF3 \/ BF3 \/ BF3 \/ Eval \/ GetAt \/ Pack \/ Drop)
        /\ ~(Len(stk') > 0 /\ stk'[1].k = "sc")
Finish == n >= MaxOps /\ n' = n + 1 /\ Len(script.ops) > 0 /\ n < MaxOps + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<stk, script>>
Init == stk = <<>> /\ script = [ops |-> <<>>] /\ n = 0
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
