------------------------------ MODULE Dispatch -------------------------------
(* A program holding the code of several instruction sets, one of them        *)
(* selected.  Instruction sets are numbered as in cpu_t: 1 sse2, 2 sse3,      *)
(* 3 ssse3, 4 sse4.1, 5 sse4.2, 6 avx, 7 avx2, 8 avx512.  What an operation   *)
(* computes depends on the history of its object alone; what it runs depends  *)
(* on the selection at that time and when the object was made.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES en,          \* instruction sets the program holds
          sel,         \* selected
          o            \* id -> [kind, p: parameters, hist: everything put in since the beginning or a reset, made: instruction set of its making]
dvars == <<en, sel, o>>
Base == CHOOSE a \in en : \A b \in en : a <= b
\* the selection stands for the best code it allows
Resolve(c) == LET s == {a \in en : a <= c} IN CHOOSE a \in s : \A b \in s : b <= a
Select(c) == sel' = c /\ UNCHANGED <<en, o>>
Put(id, x) == [y \in DOMAIN o \cup {id} |-> IF y = id THEN x ELSE o[y]]
Make(id, kind, p) == o' = Put(id, [kind |-> kind, p |-> p, hist |-> <<>>, made |-> Resolve(sel)]) /\ UNCHANGED <<en, sel>>
Feed(id, x) == o' = [o EXCEPT ![id].hist = @ \o x] /\ UNCHANGED <<en, sel>>
\* a reset may make the object anew
Restart(id) == o' = [o EXCEPT ![id].hist = <<>>, ![id].made = IF Resolve(sel) > @ THEN Resolve(sel) ELSE @] /\ UNCHANGED <<en, sel>>
Drop(id) == o' = [x \in DOMAIN o \ {id} |-> o[x]] /\ UNCHANGED <<en, sel>>
Most(a, b) == IF a > b THEN a ELSE b
\* code an operation may run: never more than what is, or at the making of the object was, selected
MayRun(id) == {a \in en : a <= Most(Resolve(sel), o[id].made)}
MayRunNow == {a \in en : a <= Resolve(sel)}

\* --- values -----------------------------------------------------------------
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
\* elements n+1.. of the convolution of everything with the taps h
Convolved(h, x, n) == [i \in 1..(Len(x) - n) |-> Sum([k \in 1..Len(h) |-> h[k] * At(x, n + i - k + 1)])]
Convolution(a, b) == [i \in 1..(Len(a) + Len(b) - 1) |-> Sum([k \in 1..Len(b) |-> b[k] * At(a, i - k + 1)])]
\* sections <<b0, b1, b2, a1, a2>>
Section(c, x) ==
  FoldLeft(LAMBDA s, v : LET y == c[1] * v + s.s1 IN [s1 |-> c[2] * v - c[4] * y + s.s2, s2 |-> c[3] * v - c[5] * y, y |-> Append(s.y, y)],
           [s1 |-> 0, s2 |-> 0, y |-> <<>>], x).y
Filtered(cs, x) == FoldLeft(LAMBDA y, c : Section(c, y), x, cs)
\* what the last n of everything put in give
Output(ob, n) ==
  LET x == ob.hist  k == Len(x) - n IN
  CASE ob.kind \in {"fir", "conv"} -> Convolved(ob.p, x, k)
    [] ob.kind = "iir" -> SubSeq(Filtered(ob.p, x), k + 1, Len(x))

\* --- the processor ----------------------------------------------------------
\* features: 0 sse3 1 ssse3 2 sse4.1 3 sse4.2 4 system keeps the registers 5 avx 6 fma 7 avx2 8-12 avx512 f cd dq bw vl 13 extended features can be asked for
Needs(c) == UNION { CASE a = 2 -> {0} [] a = 3 -> {1} [] a = 4 -> {2} [] a = 5 -> {3} [] a = 6 -> {4, 5} [] a = 7 -> {6, 7, 13} [] a = 8 -> {8, 9, 10, 11, 12} [] OTHER -> {} : a \in 1..c }
Supported(f) == {c \in 1..8 : Needs(c) \subseteq f}
Best(f) == CHOOSE c \in Supported(f) : \A d \in Supported(f) : d <= c
\* every set's features come with those of the lower ones
Orderly(f) == \A c \in 1..8 : (Needs(c) \ Needs(c - 1)) \cap f \in {{}, Needs(c) \ Needs(c - 1)} /\ ((Needs(c) \ Needs(c - 1)) \cap f # {} => Needs(c) \subseteq f)
=============================================================================
