------------------------------- MODULE MCDft --------------------------------
(* The exact rules of Dft.tla against the defining sum, in the field Z_13    *)
(* (which has the primitive roots needed for axes of length 1,2,3,4,6).      *)
(* cell: the concrete content of each buffer in the field, computed by the   *)
(* definition alone.                                                         *)
EXTENDS Dft, TLC
CONSTANTS Values, MaxPow
Shapes == {<<1>>, <<2>>, <<3>>, <<4>>, <<2, 2>>, <<3, 1>>, <<2, 3>>, <<2, 1, 2>>}
VARIABLES cell
vars == <<kind, shape, buf, cell>>
Q == 13
G == 2 \* generator of Z_13*
Pw(a, n) == LET f[i \in 0..n] == IF i = 0 THEN 1 ELSE (f[i - 1] * a) % Q IN f[n]
Root(n) == Pw(G, 12 \div n)
\* definition, separable sum written as one sum over all coordinates; dir 0 uses w^-1
W(sh, dir, a, b) ==
  LET ca == Coord(sh, a)  cb == Coord(sh, b) IN
  FoldLeftDomain(LAMBDA acc, d : (acc * Pw(Root(sh[d]), (IF dir = 0 THEN (sh[d] - ((ca[d] * cb[d]) % sh[d])) % sh[d] ELSE (ca[d] * cb[d]) % sh[d]))) % Q, 1, sh)
\* only the re parts carry data here (im = 0): the rules act on both alike
Def(sh, dir, x) ==
  LET P == Prod(sh) IN
  [k \in 1..P |-> FoldLeftDomain(LAMBDA acc, j : (acc + x[j] * W(sh, dir, j - 1, k - 1)) % Q, 0, x)]
Re(v) == [k \in 1..(Len(v) \div 2) |-> v[2 * k - 1] % Q]
Meaning(sh, x) ==
  LET P == Prod(sh)  s == Pw(P % Q, x.pow)  base == IF x.dom = "t" THEN Re(x.v) ELSE Def(sh, 0, Re(x.v)) IN
  [k \in 1..P |-> (s * base[k]) % Q]
Init == kind = "c" /\ shape \in Shapes /\ buf = [b \in Bufs |-> Unknown] /\ cell = [b \in Bufs |-> <<>>]
LoadAny == /\ \E b \in {1}, dom \in {"t", "f"} : \E x \in [1..Prod(shape) -> Values] :
              LET v == [i \in 1..(2 * Prod(shape)) |-> IF i % 2 = 1 THEN x[(i + 1) \div 2] ELSE 0] IN
              /\ buf[b].dom = "x" /\ Load(b, dom, v)
              /\ cell' = [cell EXCEPT ![b] = IF dom = "t" THEN Re(v) ELSE Def(shape, 0, Re(v))]
ExecAny == \E dir \in {0, 1}, dst \in {1, 2}, src \in {1, 2} :
              /\ buf[src].pow <= MaxPow
              /\ Exec(dir, dst, src)
              /\ cell' = [cell EXCEPT ![dst] = Def(shape, dir, cell[src])]
Next == LoadAny \/ ExecAny
Spec == Init /\ [][Next]_vars
RulesExact == \A b \in Bufs : buf[b].dom # "x" => cell[b] = Meaning(shape, buf[b])
\* the impulse rule against the definition: the k-th output of a unit impulse is the root with that index
ImpulseExact == buf[1].dom = "x" =>
  \A dir \in {0, 1}, p \in 0..Prod(shape)-1, k \in 0..Prod(shape)-1 :
    LET i == RootIndex(shape, dir, p, 0, k) IN
    12 % Prod(shape) = 0 => i % 4 = 0 /\ W(shape, dir, p, k) = Pw(Root(Prod(shape)), i \div 4)
\* a chain of stages always has a safe disposition, and copying the input to scratch first is enough
BadRev(sh, v) == v
ASSUME \A n \in 1..6 : \A mask \in 0..(2^n - 1), inplace \in BOOLEAN : \E r \in 0..(2^n - 1) : SafeDisposition(n, mask, inplace, r)
=============================================================================
