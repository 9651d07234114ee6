------------------------------- MODULE MCMem ---------------------------------
(* Owners take, copy, give up and move references; concurrent decrements are  *)
(* modelled as the implementation does them: one atomic step that decrements  *)
(* and tells what is left, then the free.                                     *)
EXTENDS Mem, TLC
CONSTANTS Threads, Sizes, MaxId
VARIABLES refs, freed, pc, held, nid
\* refs: block -> counter in memory; freed: block -> how often; held: thread -> block -> references it owns
\* pc: thread -> <<"idle">> or what it is in the middle of
vars == <<b, stats, refs, freed, pc, held, nid>>
Ids == 1..MaxId
Init == /\ Fresh /\ refs = [i \in Ids |-> 0] /\ freed = [i \in Ids |-> 0] /\ nid = 1
        /\ pc = [t \in Threads |-> <<"idle", 0, 0>>] /\ held = [t \in Threads |-> [i \in Ids |-> 0]]
Idle(t) == pc[t][1] = "idle"
Alloc(t) == /\ Idle(t) /\ nid <= MaxId /\ \E n \in Sizes : Obtain(nid, n)
            /\ refs' = [refs EXCEPT ![nid] = 1] /\ held' = [held EXCEPT ![t][nid] = 1] /\ nid' = nid + 1 /\ UNCHANGED <<freed, pc>>
\* an owner makes another reference, for itself or another thread
Share(t, u, i) == /\ Idle(t) /\ held[t][i] > 0 /\ refs[i] < 3 /\ AddRef(i)
                  /\ refs' = [refs EXCEPT ![i] = @ + 1] /\ held' = [held EXCEPT ![u][i] = @ + 1] /\ UNCHANGED <<freed, pc, nid>>
\* decrement; then free when nothing is left.  What is seen is the value the decrement left.
Dec(t, i) == /\ Idle(t) /\ held[t][i] > 0
             /\ refs' = [refs EXCEPT ![i] = @ - 1] /\ held' = [held EXCEPT ![t][i] = @ - 1]
             /\ pc' = [pc EXCEPT ![t] = <<"free", i, refs[i] - 1>>] /\ Release(i) /\ UNCHANGED <<freed, nid>>
Zero(t) == pc[t][3] = 0
Free(t) == /\ pc[t][1] = "free" /\ freed' = [freed EXCEPT ![pc[t][2]] = @ + IF Zero(t) THEN 1 ELSE 0]
           /\ pc' = [pc EXCEPT ![t] = <<"idle", 0, 0>>] /\ UNCHANGED <<b, stats, refs, held, nid>>
Next == \E t \in Threads : Alloc(t) \/ Free(t) \/ \E i \in Ids : Dec(t, i) \/ \E u \in Threads : Share(t, u, i)
Spec == Init /\ [][Next]_vars
\* broken: the counter is looked at again after the decrement
Reread(t) == refs[pc[t][2]] = 0

Total(i) == LET S == {<<t, k>> \in Threads \X (1..9) : k <= held[t][i]} IN Cardinality(S)
Counts == \A i \in Ids : refs[i] = Total(i) /\ (refs[i] > 0 <=> i \in DOMAIN b) /\ (i \in DOMAIN b => b[i].refs = refs[i])
Once == \A i \in Ids : freed[i] <= 1 /\ (freed[i] = 1 => refs[i] = 0)
\* nothing is forgotten
AllFreed == (\A t \in Threads : Idle(t)) => \A i \in Ids : i < nid /\ refs[i] = 0 => freed[i] = 1
RECURSIVE SumSizes(_)
SumSizes(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN b[i].size + SumSizes(S \ {i})
Books == stats[1] - stats[3] = Cardinality(DOMAIN b) /\ stats[2] - stats[4] = SumSizes(DOMAIN b)
=============================================================================
