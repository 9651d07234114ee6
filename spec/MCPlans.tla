------------------------------- MODULE MCPlans ------------------------------
(* The cache as implemented: one lock, a linear search, an insertion at the  *)
(* end; each step of a thread is separate.  It refines the atomic map of     *)
(* Plans.tla: the linearization point of get is the moment the result is     *)
(* decided under the lock.  With Locked = FALSE the refinement fails.        *)
EXTENDS Plans, TLC
CONSTANTS Threads, Keys, MaxOps, Locked
VARIABLES lock, pc, at, key, vec, fresh, done, dup
vars == <<cache, seen, lock, pc, at, key, vec, fresh, done, dup>>
None == -1
Init == /\ CInit /\ lock = None /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> 0]
        /\ key = [t \in Threads |-> None] /\ vec = <<>> /\ fresh = 1 /\ done = 0 /\ dup = FALSE
Begin(t) == /\ pc[t] = "idle" /\ done < MaxOps /\ done' = done + 1
            /\ \E k \in Keys : key' = [key EXCEPT ![t] = k]
            /\ pc' = [pc EXCEPT ![t] = "lock"] /\ UNCHANGED <<cache, seen, lock, at, vec, fresh, dup>>
BeginClear(t) == /\ pc[t] = "idle" /\ done < MaxOps /\ done' = done + 1 /\ pc' = [pc EXCEPT ![t] = "clock"]
                 /\ UNCHANGED <<cache, seen, lock, at, key, vec, fresh, dup>>
Acquire(t) == /\ pc[t] \in {"lock", "clock"} /\ (lock = None \/ ~Locked) /\ lock' = t
              /\ pc' = [pc EXCEPT ![t] = IF @ = "lock" THEN "search" ELSE "wipe"] /\ at' = [at EXCEPT ![t] = 1]
              /\ UNCHANGED <<cache, seen, key, vec, fresh, done, dup>>
Search(t) == /\ pc[t] = "search"
             /\ IF at[t] > Len(vec) THEN pc' = [pc EXCEPT ![t] = "insert"] /\ UNCHANGED <<at, cache, seen, dup>>
                ELSE IF vec[at[t]][1] = key[t]
                THEN /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED at
                     /\ IF ENABLED Get(key[t], vec[at[t]][2]) THEN Get(key[t], vec[at[t]][2]) /\ UNCHANGED dup ELSE dup' = TRUE /\ UNCHANGED cvars
                ELSE at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, cache, seen, dup>>
             /\ UNCHANGED <<lock, key, vec, fresh, done>>
Insert(t) == /\ pc[t] = "insert" /\ vec' = Append(vec, <<key[t], fresh>>) /\ fresh' = fresh + 1
             /\ IF ENABLED Get(key[t], fresh) THEN Get(key[t], fresh) /\ UNCHANGED dup ELSE dup' = TRUE /\ UNCHANGED cvars
             /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<lock, at, key, done>>
Wipe(t) == /\ pc[t] = "wipe" /\ vec' = <<>> /\ Clear /\ pc' = [pc EXCEPT ![t] = "unlock"] /\ UNCHANGED <<lock, at, key, fresh, done, dup>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = None /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<cache, seen, at, key, vec, fresh, done, dup>>
Next == \E t \in Threads : Begin(t) \/ BeginClear(t) \/ Acquire(t) \/ Search(t) \/ Insert(t) \/ Wipe(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars
Refines == ~dup
OnePlanPerKey == \A i, j \in DOMAIN vec : vec[i][1] = vec[j][1] => i = j
Same == \A i \in DOMAIN vec : vec[i][1] \in DOMAIN cache /\ cache[vec[i][1]] = vec[i][2]
=============================================================================
