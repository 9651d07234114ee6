----------------------------- MODULE MCLockFree -----------------------------
(* The published algorithm, step by step, on that memory model: every         *)
(* interleaving, every permitted stale value, every sequence of request sizes *)
(* within the bounds.  With Fences = FALSE the race is found.                 *)
EXTENDS LockFree, FiniteSets, TLC
CONSTANTS Caps, MaxReq, MaxCalls, Fences
VARIABLES pc, loc, ncalls, racy, bad
vars == <<cap, hist, vc, rel, acq, seen, cells, enq, deq, call, stale, pc, loc, ncalls, racy, bad>>
Vars == {"front", "tail"}
Init == /\ cap \in Caps /\ MemInit(Vars, cap, 0) /\ enq = <<>> /\ deq = 0 /\ call = <<None, None>> /\ stale = TRUE
        /\ pc = <<"idle", "idle">> /\ loc = [t \in {1, 2} |-> [own |-> 0, sz |-> 0, got |-> <<>>]]
        /\ ncalls = <<0, 0>> /\ racy = FALSE /\ bad = FALSE
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Same == UNCHANGED <<cap, enq, deq, call, stale>>
Begin(t) == /\ pc[t] = "idle" /\ ncalls[t] < MaxCalls
            /\ \E n \in 1..MaxReq, p \in BOOLEAN :
                 Invoke(t, IF t = 1 THEN "enq" ELSE "deq", n, p, IF t = 1 THEN [i \in 1..n |-> Len(enq) + i] ELSE <<>>)
            /\ ncalls' = [ncalls EXCEPT ![t] = @ + 1] /\ Go(t, "own") /\ UNCHANGED <<mvars, loc, racy, bad>>
Own(t) == IF t = 1 THEN "tail" ELSE "front"
Their(t) == IF t = 1 THEN "front" ELSE "tail"
LoadOwn(t) == /\ pc[t] = "own" /\ Load(t, Own(t), 0, "rlx") /\ loc' = [loc EXCEPT ![t].own = Loaded(Own(t), 0)]
              /\ Go(t, "their") /\ Same /\ UNCHANGED <<ncalls, racy, bad>>
LoadTheir(t) ==
  /\ pc[t] = "their"
  /\ \E b \in 0..Len(hist[Their(t)])-1 :
       /\ Load(t, Their(t), b, "rlx")
       /\ LET v == Loaded(Their(t), b)
              a == IF t = 1 THEN cap - (loc[t].own - v) ELSE v - loc[t].own
              k == IF call[t].n <= a THEN call[t].n ELSE IF call[t].partial THEN a ELSE 0 IN
          /\ loc' = [loc EXCEPT ![t].sz = k, ![t].got = <<>>]
          /\ Go(t, IF call[t].n > a /\ ~call[t].partial THEN "ret" ELSE "fa")
  /\ Same /\ UNCHANGED <<ncalls, racy, bad>>
FenceA(t) == pc[t] = "fa" /\ (IF Fences THEN Fence(t, "acq") ELSE UNCHANGED mvars) /\ Go(t, "c1") /\ Same /\ UNCHANGED <<loc, ncalls, racy, bad>>
First(t) == NumMin(cap - (loc[t].own % cap), loc[t].sz)
Copy(t, at, n, skip, next) ==
  /\ racy' = (racy \/ \E i \in at..at+n-1 : ~(IF t = 1 THEN MayWrite(t, i) ELSE MayRead(t, i)))
  /\ IF t = 1 THEN WriteCells(t, at, SubSeq(call[t].items, skip + 1, skip + n)) /\ UNCHANGED loc
     ELSE ReadCells(t, at, n) /\ loc' = [loc EXCEPT ![t].got = @ \o [i \in 1..n |-> cells[at + i - 1].val]]
  /\ Go(t, next) /\ Same /\ UNCHANGED <<ncalls, bad>>
Copy1(t) == pc[t] = "c1" /\ Copy(t, loc[t].own % cap, First(t), 0, "c2")
Copy2(t) == pc[t] = "c2" /\ Copy(t, 0, loc[t].sz - First(t), First(t), "fr")
FenceR(t) == pc[t] = "fr" /\ (IF Fences THEN Fence(t, "rel") ELSE UNCHANGED mvars) /\ Go(t, "st") /\ Same /\ UNCHANGED <<loc, ncalls, racy, bad>>
Publish(t) == pc[t] = "st" /\ Store(t, Own(t), loc[t].own + loc[t].sz, "rlx") /\ Go(t, "ret") /\ Same /\ UNCHANGED <<loc, ncalls, racy, bad>>
Ret(t) == /\ pc[t] = "ret"
          /\ IF t = 1 THEN (IF ENABLED EnqReturn(loc[1].sz) THEN EnqReturn(loc[1].sz) /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED <<cap, enq, deq, call, stale>>)
             ELSE (IF ENABLED DeqReturn(loc[2].sz, loc[2].got) THEN DeqReturn(loc[2].sz, loc[2].got) /\ UNCHANGED bad ELSE bad' = TRUE /\ UNCHANGED <<cap, enq, deq, call, stale>>)
          /\ Go(t, "idle") /\ UNCHANGED <<mvars, loc, ncalls, racy>>
Next == ~bad /\ ~racy /\ \E t \in {1, 2} : Begin(t) \/ LoadOwn(t) \/ LoadTheir(t) \/ FenceA(t) \/ Copy1(t) \/ Copy2(t) \/ FenceR(t) \/ Publish(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
RaceFree == ~racy
ReturnsAllowed == ~bad
=============================================================================
