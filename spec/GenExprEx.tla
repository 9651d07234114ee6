----------------------------- MODULE GenExprEx ------------------------------
(* Every tree of the model, evaluated along every axis with every small width *)
(* and from every phase.                                                      *)
EXTENDS ExprTrees, TLC, Json
VARIABLES script, done
CapTo(s) == [i \in 1..Len(s) |-> IF s[i] = Inf THEN 6 ELSE s[i]]
Ev(t, d, w, ax, lo) == [e |-> "E", t |-> t, w |-> w, ax |-> ax, dk |-> (w + lo) % 3, mis |-> lo, d |-> d, st |-> [i \in 1..Len(d) |-> IF i = ax THEN lo ELSE 0], n |-> Const(Len(d), Inf)]
Evs(t) == LET d == CapTo(ShapeOf(t)) IN
  SubSeq([k \in 1..(6 * Len(d)) |-> Ev(t, d, 2^((k - 1) % 3), 1 + (k - 1) \div 6, ((k - 1) \div 3) % 2)], 1, 6 * Len(d))
RevOk(t) == t.k = "ten" \/ (t.k = "slice" /\ t.a.k = "ten") \/ (t.k = "cat" /\ Len(ShapeOf(t)) = 1 /\ t.a.k = "ten" /\ t.b.k = "ten") \/ (t.k = "rev" /\ t.a.k = "ten")
RECURSIVE Ok(_)
Ok(t) == (t.k # "rev" \/ RevOk(t.a)) /\ \A c \in {"a", "b"} \cap DOMAIN t : Ok(t[c])
Init == done = FALSE /\ \E t \in {u \in Trees : Ok(u)} : (\A i \in 1..Len(ShapeOf(t)) : ShapeOf(t)[i] > 0) /\ script = [ops |-> Evs(t)]
Next == ~done /\ done' = TRUE /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Spec == Init /\ [][Next]_<<script, done>>
=============================================================================
