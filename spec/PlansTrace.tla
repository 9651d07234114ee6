------------------------------ MODULE PlansTrace -----------------------------
(* Each trace line is one concurrent run: the operations of every thread in  *)
(* program order, with the ticket at which each began and ended.  TLC looks  *)
(* for an order of the operations that respects real time (an operation that *)
(* ended before another began comes first) and the map.                      *)
EXTENDS Plans, TraceUtil
VARIABLES l, pcs
tvars == <<cache, seen, l, pcs>>
Runs == Trace
T(i) == Runs[i].threads
TInit == TLCSet(1, 1) /\ CInit /\ l = 1 /\ pcs = IF Len(Runs) = 0 THEN <<>> ELSE [t \in DOMAIN T(1) |-> 0]
Ops(t) == T(l)[t]
Pending(t) == pcs[t] < Len(Ops(t))
Op(t) == Ops(t)[pcs[t] + 1]
\* may come next: no other thread's next operation ended before it began
First(t) == \A u \in DOMAIN pcs : Pending(u) => Op(u).e > Op(t).b
Apply(o) ==
  CASE o.op = "get" -> o.ok /\ Get(o.key, o.id)
    [] o.op = "use" -> o.ok /\ o.res = o.alone /\ Use(o.key)
    [] o.op = "exec" -> o.ok /\ o.res = o.alone /\ UNCHANGED cvars
    [] o.op = "frozen" -> o.faults = 0 /\ o.ok /\ o.res = o.alone /\ UNCHANGED cvars
    [] o.op = "clear" -> Clear
TOp == /\ l <= Len(Runs)
       /\ \E t \in DOMAIN pcs : Pending(t) /\ First(t) /\ Apply(Op(t)) /\ pcs' = [pcs EXCEPT ![t] = @ + 1]
       /\ UNCHANGED l
TEnd == /\ l <= Len(Runs) /\ \A t \in DOMAIN pcs : ~Pending(t)
        /\ l' = l + 1 /\ TLCSet(1, l + 1) /\ cache' = Empty /\ seen' = {}
        /\ pcs' = IF l < Len(Runs) THEN [t \in DOMAIN T(l + 1) |-> 0] ELSE <<>>
TSpec == TInit /\ [][TOp \/ TEnd]_tvars
Accepted == IF TLCGet(1) = Len(Runs) + 1 THEN TRUE ELSE Print(<<"REJECTED", TLCGet(1)>>, FALSE)
=============================================================================
