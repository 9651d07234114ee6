------------------------------- MODULE MCSrc ---------------------------------
(* Pulls and pushes of any sizes produce the outputs of one long call.        *)
EXTENDS Src, TLC
CONSTANTS MaxUp, MaxDown, Depth, MaxBlock, MaxOut
VARIABLES up, down, s, fed, got
vars == <<up, down, s, fed, got>>
H(j) == ((j * j * 7 + 3 * j) % 11) - 4
X(i) == ((i * i * 5 + i) % 13) - 6
K(u) == [j \in 1..(Depth * u) |-> H(j)]
Gcd(a, b) == CHOOSE g \in 1..a : a % g = 0 /\ b % g = 0 /\ \A x \in 1..a : a % x = 0 /\ b % x = 0 => x <= g
Init == /\ up \in 1..MaxUp /\ down \in {d \in 1..MaxDown : Gcd(up, d) = 1}
        /\ s = Fresh(Depth) /\ fed = 0 /\ got = <<>>
\* inputs from position a on
From(a, n) == [i \in 1..n |-> X(a + i - 1)]
Run(n, blk) == /\ s' = After(s, blk, n, up, down, Depth)
               /\ got' = got \o Out(s, blk, K(up), n, up, down, Depth)
               /\ UNCHANGED <<up, down>>
Pull(n) == /\ Used(s.k, up, down) = fed
           /\ LET need == Need(s.k, n, up, down) IN Run(n, From(fed, need)) /\ fed' = fed + need
\* a push offers all that has been supplied and not consumed; RoomFor says how many outputs that is good for
RoomFor(k, m) == Room(k, m, up, down)
Push(m) == LET at == Used(s.k, up, down) have == fed + m - at IN
           /\ have >= 0
           /\ RoomFor(s.k, have) >= 0
           /\ Run(RoomFor(s.k, have), From(at, have)) /\ fed' = fed + m
Next == s.k < MaxOut /\ \E n \in 0..MaxBlock : Pull(n) \/ Push(n)
Spec == Init /\ [][Next]_vars

Direct(k) == NumSum([t \in 1..Depth |-> LET i == LastIn(k, up, down) - t + 1 IN IF i < 0 THEN 0 ELSE X(i) * H(k * down - i * up + 1)])
OneStream == \A j \in 1..Len(got) : got[j] = Direct(j - 1)
\* never beyond what was supplied; what is held back is less than one output's worth
Supplied == Used(s.k, up, down) <= fed
NoStall == fed - Used(s.k, up, down) < Need(s.k, 1, up, down) \/ Need(s.k, 1, up, down) = 0 \/ Used(s.k, up, down) = fed
\* no drift: inputs consumed and outputs made stay within a step of the ratio
NoDrift == LET c == Used(s.k, up, down) * up - s.k * down IN c >= -up - down /\ c <= up + down
\* the query of the original: difference of floored positions
FlooredRoom(k, m) == LET c == Used(k, up, down) IN Div((c + m - 1) * up, down) - Div((c - 1) * up, down)
=============================================================================
