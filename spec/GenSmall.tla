------------------------------ MODULE GenSmall -------------------------------
(* Histories of containers of one type each.  kind: "s" small buffer of       *)
(* capacity cap, "c" the same with elements that have a life, "i" inline.     *)
(* m: id -> size (mirrors the model; -1 unknown after a move).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps
VARIABLES script, n, m
vars == <<script, n, m>>
Pick(S) == {RandomElement(S)}
Init == n = 0 /\ script = <<>> /\ m = <<>>
Start == /\ n = 0 /\ n' = 1 /\ m' = <<>>
         /\ \E t \in Pick({ <<"s", 4>>, <<"s", 16>>, <<"s", 1>>, <<"c", 4>>, <<"c", 16>>, <<"c", 1>>, <<"i", 1>>, <<"i", 5>>, <<"i", 16>>, <<"i", 300>> }) :
              script' = [t |-> t, ops |-> <<>>]
Log(op) == n > 0 /\ script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Inline == script.t[1] = "i"
Cap == script.t[2]
Put(id, k) == [x \in DOMAIN m \cup {id} |-> IF x = id THEN k ELSE m[x]]
Ids == DOMAIN m
Big(u) == IF Inline THEN RandomElement(0..(Cap + 1)) ELSE RandomElement({0, 1, Cap - 1, Cap, Cap + 1, Cap + 2, 3 * Cap, RandomElement(0..(Cap * 2))})
NewId == {i \in 1..4 : i \notin Ids}
Make == \E id \in NewId : \E how \in Pick({"size", "value", "list"}), k \in {Big(n)} :
          /\ IF Inline THEN Log(<<"make", id, how, k>> \o (IF how = "size" THEN <<>> ELSE IF how = "value" THEN <<RandomElement(0..9)>> ELSE [i \in 1..k |-> RandomElement(0..9)]))
             ELSE Log(<<"make", id, "size", k>>)
          /\ m' = IF Inline /\ k > Cap THEN m ELSE Put(id, k)
Copy == \E a \in Ids, b \in 1..4 : Log(<<"copy", b, a, RandomElement(0..1)>>) /\ m' = Put(b, m[a])
\* self-move and what is moved from: emptied or resized next
Move == \E a \in Ids, b \in 1..4 : a # b /\ Log(<<"move", b, a>>) /\ m' = [Put(b, m[a]) EXCEPT ![a] = -1]
Swap == \E a, b \in Ids : Log(<<"swap", a, b>>) /\ m' = [m EXCEPT ![a] = m[b], ![b] = m[a]]
Push == \E a \in Ids : \E k \in 1..3 : /\ m[a] >= 0 /\ m[a] < 60 /\ Log(<<"push", a, RandomElement(0..9)>>)
                                       /\ m' = [m EXCEPT ![a] = IF Inline /\ @ >= Cap THEN @ ELSE @ + 1]
PushOwn == ~Inline /\ \E a \in Ids : m[a] > 0 /\ m[a] < 60 /\ Log(<<"pushown", a, RandomElement(1..m[a])>>) /\ m' = [m EXCEPT ![a] = @ + 1]
Pop == ~Inline /\ \E a \in Ids : m[a] > 0 /\ Log(<<"pop", a>>) /\ m' = [m EXCEPT ![a] = @ - 1]
Resize == ~Inline /\ \E a \in Ids : \E k \in {Big(n)} : Log(<<"resize", a, k>>) /\ m' = [m EXCEPT ![a] = k]
Write == \E a \in Ids : m[a] > 0 /\ \E c \in 1..2 : Log(<<"write", a, RandomElement({1, m[a], RandomElement(1..m[a])}), RandomElement(0..9), RandomElement(0..2)>>) /\ UNCHANGED m
At == Inline /\ \E a \in Ids : m[a] >= 0 /\ \E k \in {Big(n)} : Log(<<"at", a, k + 1>>) /\ UNCHANGED m
Compare == Inline /\ \E a, b \in Ids : Log(<<"compare", a, b>>) /\ UNCHANGED m
Ends == \E a \in Ids : m[a] > 0 /\ Log(<<"ends", a>>) /\ UNCHANGED m
Free == \E a \in Ids : Log(<<"free", a>>) /\ m' = [x \in Ids \ {a} |-> m[x]]
Step == n > 0 /\ n < MaxOps /\ (Make \/ Copy \/ Move \/ Swap \/ Push \/ PushOwn \/ Pop \/ Resize \/ Write \/ At \/ Compare \/ Ends \/ Free)
Finish == n = MaxOps /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<script, m>>
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
