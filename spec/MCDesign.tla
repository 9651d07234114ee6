------------------------------ MODULE MCDesign -------------------------------
(* The division of the roots of a filter over its sections: whatever roots    *)
(* are found nearest, the sections realise the filter and none is left over.  *)
(* rs: real zeros, cs: complex pairs of zeros; rp, cp: poles; ss: sections.   *)
(* WrongList: the second pole is taken from the place where the nearest zero  *)
(* stands, as the library once did.                                           *)
EXTENDS Design, TLC
CONSTANTS MaxRoots, WrongList
VARIABLES f, z, p, ss
vars == <<f, z, p, ss>>
Kinds == {<<-1>>, <<0>>, <<2>>, <<1, 1>>, <<0, 2>>}
Lists(n) == UNION {[1..k -> Kinds] : k \in 0..n}
Sorted(s) == \A i \in 1..(Len(s) - 1) : Len(s[i]) < Len(s[i + 1]) \/ (Len(s[i]) = Len(s[i + 1]) /\ s[i][1] <= s[i + 1][1])
Small == {s \in Lists(MaxRoots) : Sorted(s)}
RECURSIVE Fill(_, _)
Fill(s, d) == IF Deg(s) >= d THEN s ELSE Fill(Append(s, <<0>>), d)
Total(a, b) == LET d == Larger(Deg(a), Deg(b)) IN d + (d % 2)
Init == /\ \E a \in Small, b \in Small : f = [z |-> a, p |-> b, k |-> 3] /\ z = Fill(a, Total(a, b)) /\ p = Fill(b, Total(a, b))
        /\ ss = <<>>
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Real(s) == {i \in 1..Len(s) : Len(s[i]) = 1}
Two(a, b) == IF Len(a) = 2 THEN <<1, -2 * a[1], a[1] * a[1] + a[2] * a[2]>> ELSE <<1, -(a[1] + b[1]), a[1] * b[1]>>
\* the rest of a list after a complex pair, or two real roots, are taken out: <<rest, first, second>>
Take(s) == {<<Without(s, i), s[i], s[i]>> : i \in {j \in 1..Len(s) : Len(s[j]) = 2}}
             \cup {<<Without(Without(s, i[1]), i[2]), s[i[1]], s[i[2]]>> : i \in {x \in Real(s) \X Real(s) : x[1] > x[2]}}
Wrong(s) == {<<Without(Without(s, i[1]), i[2]), s[i[1]], s[i[1]]>> : i \in {x \in Real(s) \X Real(s) : x[1] > x[2]}}
Section == \E a \in Take(z), b \in (IF WrongList THEN Wrong(p) ELSE Take(p)) :
             /\ z' = a[1] /\ p' = b[1] /\ UNCHANGED f
             /\ ss' = Append(ss, LET g == IF ss = <<>> THEN f.k ELSE 1 IN [i \in 1..3 |-> g * Two(a[2], a[3])[i]] \o Two(b[2], b[3]))
Next == Section
Spec == Init /\ [][Next]_vars
Even2(s) == Deg(s) % 2 = 0
Balanced == Even2(z) /\ Even2(p) /\ Deg(z) = Deg(p)
\* a section can always be made until all roots are used up
Progress == (z # <<>> \/ p # <<>>) => ENABLED Section
Complete == (z = <<>> /\ p = <<>> /\ ss # <<>>) => Realises(ss, f)

\* --- substitutions, on all small points: the edges of a filter are where they were asked to be
Ratios == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>>}
ASSUME \A u \in Ratios : Proto("lowpass", u, u, 1, 0)[1] * u[1] = Proto("lowpass", u, u, 1, 0)[2] * u[2]
\* what is at rest passes a low-pass as the prototype does, and is the far end for a high-pass
ASSUME \A u \in Ratios : Proto("lowpass", u, u, 1, 1) = <<0, 1>> /\ Proto("highpass", u, u, -1, 1) = <<0, 1>>
ASSUME \A u \in Ratios, v \in Ratios : u[1] * v[2] < v[1] * u[2] => Proto("bandstop", u, v, 1, 1) = <<0, 1>> /\ Proto("bandstop", u, v, -1, 1) = <<0, 1>>
\* Chebyshev polynomials are bounded by one up to the edge
ASSUME \A n \in 1..10 : ChebSq(n, 1) = 1 /\ ChebSq(n, 0) = (IF n % 2 = 0 THEN 1 ELSE 0)
=============================================================================
