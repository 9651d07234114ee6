---------------------------- MODULE GenLockFree -----------------------------
(* Calls of the two threads and schedules: exhaustively with two preemptions *)
(* for small requests, and at random with stale loads.                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Exhaustive, MaxOps, MaxSched
VARIABLES script, n
vars == <<script, n>>
Pick(S) == {RandomElement(S)}
Rep(x, k) == [i \in 1..k |-> x]
Op(k, m, p) == <<k, m, p>>
Init == n = 0 /\ script = <<>>
Ex == /\ Exhaustive /\ n = 0 /\ n' = 1
      /\ \E v \in {0, 1}, c \in {2, 3}, t \in {1, 2}, i \in 0..16, j \in 0..16, p \in {0, 1} :
         script' = [v |-> v, cap |-> c, stale |-> 0,
                    a |-> <<Op("e", 1, 0), Op("e", 2, p), Op("e", 1, 0)>>, b |-> <<Op("d", 2, p), Op("d", 2, 1)>>,
                    sched |-> Rep(t, 8) \o Rep(3 - t, j) \o Rep(t, i) \o Rep(3 - t, 60)]
Rand == /\ ~Exhaustive /\ n = 0 /\ n' = 1
        /\ \E v \in Pick(0..3), c \in Pick({1, 2, 3, 4, 5, 7, 8}), st \in Pick({0, 1}), burst \in Pick({1, 3, 8}) :
           LET ops(k) == [i \in 1..RandomElement(2..MaxOps) |->
                            Op(IF RandomElement(1..8) = 1 THEN "s" ELSE k, RandomElement(0..(c + 2)), RandomElement({0, 1}))]
               sch == FlattenSeq([i \in 1..(MaxSched \div burst) |-> Rep(RandomElement({1, 2}) + 2 * st * RandomElement({0, 0, 1, 2, 3}), RandomElement(1..burst))]) IN
           script' = [v |-> v, cap |-> c, stale |-> st, a |-> ops("e"), b |-> ops("d"), sched |-> sch]
Finish == n = 1 /\ n' = 2 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED script
Next == Ex \/ Rand \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
