---------------------------- MODULE MCTranspose -----------------------------
(* The in-place method as a state machine over a stack of tasks.              *)
EXTENDS Transpose, TLC
CONSTANTS MaxSide
VARIABLES sh, m, todo, cyc
vars == <<sh, m, todo, cyc>>
NoCyc == [origin |-> 0, seen |-> {}]
TT(b, r, c) == [op |-> "T", b |-> b, r |-> r, c |-> c]
Init == /\ \E r \in 0..MaxSide, c \in 0..MaxSide : sh = <<r, c>>
        /\ m = [k \in 1..Prod(sh) |-> k] /\ todo = <<TT(0, sh[1], sh[2])>> /\ cyc = NoCyc
Top == todo[1]
Rest == Tail(todo)
Becomes(ts) == todo' = ts \o Rest /\ UNCHANGED <<sh, m, cyc>>
Moves(mm) == m' = mm /\ todo' = Rest /\ UNCHANGED <<sh, cyc>>
Wide(b, r, c) == LET q == c \div r done == r * q IN
  [i \in 1..q |-> [op |-> "S", b |-> b + (i - 1) * r, n |-> r, stride |-> c]]
  \o (IF q > 1 THEN <<[op |-> "M", b |-> b, t |-> <<q, r>>, side |-> r, s1 |-> c]>> ELSE <<>>)
  \o (IF c > done THEN <<[op |-> "R", b |-> b, done |-> done, r |-> r, c |-> c], TT(b + done * r, r, c - done)>> ELSE <<>>)
Tall(b, r, c) == LET q == r \div c done == c * q IN
  [i \in 1..q |-> [op |-> "S", b |-> b + (i - 1) * c * c, n |-> c, stride |-> c]]
  \o (IF q > 1 THEN <<[op |-> "M", b |-> b, t |-> <<c, q>>, side |-> c, s1 |-> c * c]>> ELSE <<>>)
  \o (IF r > done THEN <<TT(b + done * c, r - done, c), [op |-> "C", b |-> b, done |-> done, r |-> r, c |-> c]>> ELSE <<>>)
Square == todo # <<>> /\ Top.op = "S" /\ Moves(SquareT(m, Top.b, Top.n, Top.stride))
Split == /\ todo # <<>> /\ Top.op = "T"
         /\ IF Top.r <= 1 \/ Top.c <= 1 THEN Becomes(<<>>)
            ELSE IF Top.r = Top.c THEN Becomes(<<[op |-> "S", b |-> Top.b, n |-> Top.r, stride |-> Top.r]>>)
            ELSE IF Top.c > Top.r THEN Becomes(Wide(Top.b, Top.r, Top.c)) ELSE Becomes(Tall(Top.b, Top.r, Top.c))
ShiftR == todo # <<>> /\ Top.op = "R" /\ Moves(ShiftRows(m, Top.b, Top.done, Top.r, Top.c))
ShiftC == todo # <<>> /\ Top.op = "C" /\ Moves(ShiftCols(m, Top.b, Top.done, Top.r, Top.c))
\* one cycle (with its point reflection) of the block permutation
Pos(k) == BlockPos(k, Top.t[1], Top.s1, Top.side)
Block(mm, k) == [j \in 1..Top.side |-> mm[Top.b + Pos(k) + j]]
PutBlock(mm, k, x) == [p \in 1..Len(mm) |-> LET j == p - Top.b - Pos(k) IN IF j >= 1 /\ j <= Top.side THEN x[j] ELSE mm[p]]
Total == Prod(Top.t)
Inv(k) == Total - 1 - k
Pair(k) == MinI(k, Inv(k))
Close(same, a, b) == IF same THEN <<a, b>> ELSE <<b, a>>
RECURSIVE Chase(_, _, _, _, _, _)
\* prev receives the block of cur and so on until the pair of the origin comes back
Chase(mm, org, prev, cur, tmp, seen) ==
  IF Pair(cur) = Pair(org)
  THEN LET fin == Close(cur = org, tmp[1], tmp[2]) IN [m |-> PutBlock(PutBlock(mm, prev, fin[1]), Inv(prev), fin[2]), seen |-> seen]
  ELSE LET v == Block(mm, cur) w == Block(mm, Inv(cur))
       IN Chase(PutBlock(PutBlock(mm, prev, v), Inv(prev), w), org, cur, Next2(Top.t, cur), tmp, seen \cup {Pair(cur)})
NextOrigin(seen, o) == LET C == {k \in (o + 1)..(((Total + 1) \div 2) - 1) : k \notin seen} IN IF C = {} THEN -1 ELSE CHOOSE k \in C : \A j \in C : k <= j
Cycle == /\ todo # <<>> /\ Top.op = "M"
         /\ LET o == cyc.origin n == Next2(Top.t, o)
                r == IF n = o THEN [m |-> m, seen |-> cyc.seen \cup {o}]
                     ELSE Chase(m, o, o, n, <<Block(m, o), Block(m, Inv(o))>>, cyc.seen \cup {o})
                nx == NextOrigin(r.seen, o) IN
            /\ m' = r.m /\ sh' = sh
            /\ IF nx = -1 THEN todo' = Rest /\ cyc' = NoCyc ELSE todo' = todo /\ cyc' = [origin |-> nx, seen |-> r.seen]
Next == Square \/ Split \/ ShiftR \/ ShiftC \/ Cycle
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result == todo = <<>> => m = Transposed(sh, [k \in 1..Prod(sh) |-> k])
Permuted == \A k \in 1..Len(m) : \E j \in 1..Len(m) : m[j] = k
Involution == todo = <<>> => Transposed(Reverse(sh), m) = [k \in 1..Len(m) |-> k]
Ends == <>(todo = <<>>)
\* more axes: the last axis to the front, then every slab on its own
Slabs(s) == LET y == s[Len(s)] x == SubSeq(s, 1, Len(s) - 1) n == Prod(x)
                a == Transposed(<<n, y>>, [k \in 1..Prod(s) |-> k]) IN
            [k \in 1..Prod(s) |-> a[((k - 1) \div n) * n + TransposedAt(x, (k - 1) % n) + 1]]
ASSUME \A s \in [1..3 -> 1..4] \cup [1..4 -> 1..2] : Slabs(s) = Transposed(s, [k \in 1..Prod(s) |-> k])
\* a cycle that comes back through the reflection, closed as if it were the origin itself
NoExchange(same, a, b) == <<a, b>>
=============================================================================
