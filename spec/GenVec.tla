------------------------------- MODULE GenVec --------------------------------
(* One round: a script for every kind of operation, lane type and length, with *)
(* every operation of Vec on random lanes.                                    *)
EXTENDS Vec, TLC, Json, Randomization
VARIABLES k
vars == <<k, m>>
Lens == <<1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 32, 64>>
Kinds == << <<"perm", "u8", 1>>, <<"perm", "i16", 2>>, <<"perm", "f32", 4>>, <<"perm", "f64", 8>>, <<"perm", "i64", 8>>, <<"perm", "c32", 8>>,
            <<"int", "i8", 1>>, <<"int", "u8", 1>>, <<"int", "i16", 2>>, <<"int", "u16", 2>>, <<"int", "i32", 4>>, <<"int", "u32", 4>>, <<"int", "i64", 8>>, <<"int", "u64", 8>>,
            <<"flt", "f32", 4>>, <<"flt", "f64", 8>>,
            <<"mem", "u8", 1>>, <<"mem", "i32", 4>>, <<"mem", "f64", 8>>, <<"mem", "c32", 8>> >>
Signed == {"i8", "i16", "i32", "i64"}
R(S) == RandomElement(S)
Line(n, base, u) == LET a == R(1..100)  b == R(0..100) IN [i \in 1..n |-> ((i * a + b) % 101) + base]
PermCase(t, n, o) == <<"perm", o[1], o[2], Line(n, 1, o), Line(n, 102, o), R(210..220)>>
IsPair(o) == o[1] \in {"zip", "zip4", "packtranspose"}
\* lanes of w bytes
LaneB(w, u) == LET c == R(1..9) IN
  CASE c = 1 -> ZeroB(w) [] c = 2 -> OnesB(w) [] c = 3 -> MaxOf(w, TRUE) [] c = 4 -> MinOf(w, TRUE) [] c = 5 -> OneB(w)
    [] c = 6 -> [i \in 1..w |-> R({0, 1, 127, 128, 255})] [] OTHER -> [i \in 1..w |-> R(0..255)]
LanesB(n, w, u) == [i \in 1..n |-> LaneB(w, i)]
\* y: wild, or x except for one lane or none, or x in half of the lanes
Beside(x, n, w, u) == LET c == R(1..4)  at == R(1..n)  d == LaneB(w, u) IN
  IF c = 1 THEN x ELSE IF c = 2 THEN [x EXCEPT ![at] = d] ELSE IF c = 3 THEN [i \in 1..n |-> IF R(1..2) = 1 THEN x[i] ELSE LaneB(w, i)] ELSE LanesB(n, w, u)
Cmps == {"eq", "ne", "lt", "gt", "le", "ge"}
Bits(op, w) == CASE op \in {"shl", "shr", "rol", "ror"} -> {0, 1, 8 * w - 1, 4 * w, R(0..(8 * w - 1))} [] op \in {"cast", "bitcast"} -> {1, 2, 4, 8} [] op = "partialmask" -> {0, 1, 2, 3, 5, 8, 16, 17, 31} [] OTHER -> {0}
IntCases(t, n, w) ==
  LET sg == t \in Signed IN
  UNION { UNION { { <<op, c, b>> : c \in IF op \in {"mask", "select", "all", "any", "maskops"} THEN Cmps ELSE IF op = "cast" THEN {"eq", "ge"} ELSE {"eq"} } : b \in { b \in Bits(op, w) : op = "partialmask" => b <= n } } : op \in IntOps(n, sg) }
IntCase(t, n, w, o) == LET x == LanesB(n, w, o) y == Beside(x, n, w, o) IN <<"int", o[1], o[2], o[3], x, y, Beside(x, n, w, <<o>>)>>
FltVal(op, u) == IF op = "hmul" THEN 16 * R(-9..9) ELSE IF op \in {"mul", "hdot", "fmadd", "horner"} THEN 4 * R(-200..200)
                 ELSE IF op \in FltSpecial /\ R(1..3) = 1 THEN R({NaN, PInf, NInf, NZero, 0}) ELSE IF R(1..4) = 1 THEN 16 * R(-40..40) ELSE R(-2000..2000)
SignVal(op, u) == IF op \in {"mulsign", "copysign"} /\ R(1..3) = 1 THEN R({NZero, 0}) ELSE FltVal(op, u)
FltLanes(op, n, u) == [i \in 1..n |-> FltVal(op, i)]
FltBeside(op, x, n, u) == LET c == R(1..4)  at == R(1..n)  d == FltVal(op, u) IN
  IF c = 1 THEN x ELSE IF c = 2 THEN [x EXCEPT ![at] = d] ELSE [i \in 1..n |-> SignVal(op, i)]
FltCases(n) == UNION { UNION { { <<op, c, b>> : c \in IF op \in FltSpecial THEN Cmps ELSE {"eq"} } : b \in IF op \in {"toint", "fromint"} THEN 0..2 ELSE {0} } : op \in FltOps(n) }
FltCase(n, o) == LET x == FltLanes(o[1], n, o) y == FltBeside(o[1], x, n, o) IN <<"flt", o[1], o[2], o[3], x, y, FltBeside(o[1], x, n, <<o>>)>>
\* memory of mm elements
MemSize(n, u) == 8 * n + R(0..9)
Extent(op, n, g, s, sp) == CASE op \in {"read", "write", "ctor", "member", "aread", "awrite"} -> n [] op \in {"gather", "scatter"} -> sp [] op \in {"gstride", "sstride"} -> g * ((n - 1) * s + 1)
                       [] op = "gfix" -> 3 * (n - 1) + 1 [] OTHER -> g * (s + n)
MemCase(t, n, mm, o) ==
  LET op == o[1]  g == o[2]
      s == IF op = "gstride" THEN R(1..8) ELSE IF op = "sstride" THEN R(1..(8 \div g)) ELSE IF op \in {"rgroup", "wgroup"} THEN R({n, n + 1, R(n..(3 * n))}) ELSE 0
      sp == g * R(n..(mm \div g))                  \* what gather and scatter may touch
      e == Extent(op, n, g, s, sp)
      off == IF op \in {"aread", "awrite"} THEN 0 ELSE R({0, mm - e, R(0..(mm - e))})
      sub == SetToSeq(RandomSubset(n, 0..((sp \div g) - 1)))
      idx == IF op = "gather" THEN [i \in 1..n |-> R(0..((sp \div g) - 1))] ELSE IF op = "scatter" THEN [i \in 1..n |-> sub[IF mm % 2 = 0 THEN i ELSE n + 1 - i]] ELSE [i \in 1..n |-> 0]
      cnt == IF op \in {"write", "awrite", "member"} THEN n ELSE IF op \in {"scatter", "sstride"} THEN n * g ELSE IF op = "wgroup" THEN 2 * n * g ELSE 0
  IN <<"mem", op, off, g, s, idx, [i \in 1..cnt |-> R(100..200)]>>
MemOps(t) == { <<op, 1>> : op \in {"read", "write", "ctor", "member", "aread", "awrite", "gfix", "gstride"} } \cup { <<op, g>> : op \in {"gather", "scatter", "sstride"} \cup (IF t = "c32" THEN {} ELSE {"rgroup", "wgroup"}), g \in 1..2 }
RECURSIVE Cases(_, _, _)
Cases(s, F(_), i) == IF i > Len(s) THEN <<>> ELSE <<F(s[i])>> \o Cases(s, F, i + 1)
\* clang 18 compiles this shuffle of 64 bytes wrongly for AVX-512BW (shown with __builtin_shufflevector alone)
Miscompiled(t, n, o) == t = "u8" /\ n = 64 /\ o[1] = "digitreverse4"
Make(kind, n, u) ==
  LET t == kind[2]  mm == MemSize(n, u) IN
  [v |-> kind[1] \o "/" \o t, kind |-> kind[1], t |-> t, n |-> n, size |-> IF kind[1] = "mem" THEN mm ELSE 0,
   ops |-> CASE kind[1] = "perm" -> Cases(SetToSeq({ o \in PermOps(n) : (t = "c32" => ~IsPair(o)) /\ ~Miscompiled(t, n, o) }), LAMBDA o : PermCase(t, n, o), 1)
             [] kind[1] = "int" -> Cases(SetToSeq(IntCases(t, n, kind[3])), LAMBDA o : IntCase(t, n, kind[3], o), 1)
             [] kind[1] = "flt" -> Cases(SetToSeq(FltCases(n)), LAMBDA o : FltCase(n, o), 1)
             [] OTHER -> LET s == SetToSeq(MemOps(t)) IN Cases(s \o s, LAMBDA o : MemCase(t, n, mm, o), 1)]
Init == k = 0 /\ m = <<>>
Next == /\ k < Len(Kinds) * Len(Lens) /\ k' = k + 1 /\ UNCHANGED m
        /\ PrintT(<<"SCRIPT", ToJson(Make(Kinds[(k \div Len(Lens)) + 1], Lens[(k % Len(Lens)) + 1], k))>>)
Spec == Init /\ [][Next]_vars
=============================================================================
