----------------------------- MODULE ExprTrees ------------------------------
EXTENDS Expr
CONSTANTS Level
(* ---- the trees: leaves, one node over leaves, and (Level 2) a node over those ---- *)
Ten(s, base) == [k |-> "ten", s |-> s, d |-> [i \in 1..Prod(s) |-> base + i]]
Leaf1 == {Ten(<<n>>, 10) : n \in {1, 3, 5}} \cup {[k |-> "cnt", v |-> 2, st |-> <<3>>]}
Leaf2 == {Ten(s, 10) : s \in {<<1, 3>>, <<3, 1>>, <<2, 3>>, <<3, 4>>}} \cup {[k |-> "cnt", v |-> 2, st |-> <<10, 1>>]}
Finite(t) == \A i \in 1..Len(ShapeOf(t)) : ShapeOf(t)[i] # Inf
Un(t) ==
  LET s == ShapeOf(t) IN
  {[k |-> "slice", a |-> t, st |-> st, n |-> n] : st \in [1..Len(s) -> 0..1], n \in [1..Len(s) -> {2, Inf}]}
  \cup (IF Finite(t) THEN {[k |-> "pad", a |-> t, v |-> 7], [k |-> "rev", a |-> t]} ELSE {})
  \cup (IF Finite(t) THEN {[k |-> "resh", a |-> t, s |-> ns] : ns \in {<<Prod(s)>>} \cup {<<p, Prod(s) \div p>> : p \in {q \in 1..4 : Prod(s) > 0 /\ Prod(s) % q = 0}}} ELSE {})
  \cup (IF Len(s) = 1 THEN {[k |-> "dim2", a |-> t]} ELSE {})
Bin(t, u) ==
  LET a == ShapeOf(t) b == ShapeOf(u) IN
  (IF Clean(<<a, b>>) THEN {[k |-> "f2", op |-> "sub", a |-> t, b |-> u]} ELSE {})
  \cup (IF Len(a) = Len(b) THEN {[k |-> "cat", ax |-> ax, a |-> t, b |-> u] : ax \in {x \in 1..Len(a) : a[x] # Inf}} ELSE {})
Leaves == Leaf1 \cup Leaf2
Mid == UNION {Un(t) : t \in Leaves} \cup UNION {Bin(t, u) : t \in Leaves, u \in Leaves}
Trees == Leaves \cup Mid \cup (IF Level >= 2 THEN UNION {Un(t) : t \in Mid} \cup UNION {Bin(t, u) : t \in Mid, u \in Leaves} ELSE {})

=============================================================================
