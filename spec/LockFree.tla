------------------------------ MODULE LockFree ------------------------------
(* The single-producer single-consumer ring buffer over a C++11 memory model. *)
(* Thread 1 enqueues, thread 2 dequeues.  The memory model keeps, per atomic  *)
(* variable, the modification order with the clock each store releases, per   *)
(* thread a vector clock, the clock its next relaxed store releases (set by a *)
(* release fence) and the clocks it has read but not yet acquired (taken over *)
(* by an acquire fence).  Plain accesses to the cells are checked for races.  *)
EXTENDS Integers, Sequences, SequencesExt, Num

VARIABLES
  cap,      \* capacity
  hist,     \* variable -> sequence of [val, clk]
  vc,       \* thread -> <<time of 1, time of 2>>
  rel,      \* thread -> clock published by relaxed stores (last release fence)
  acq,      \* thread -> clock read by relaxed loads since the last acquire fence
  seen,     \* thread -> variable -> index of the last store seen (coherence)
  cells,    \* cell -> [val, wt, w, r]: writer thread, time of last write, times of last reads
  enq,      \* all items of returned enqueue calls, in order
  deq,      \* number of items of returned dequeue calls
  call,     \* thread -> pending call or [op |-> "none"]
  stale     \* may relaxed loads return an older value here?
mvars == <<hist, vc, rel, acq, seen, cells>>
fvars == <<cap, enq, deq, call, stale>>

Join(a, b) == <<NumMax(a[1], b[1]), NumMax(a[2], b[2])>>
Tick(t) == [vc EXCEPT ![t][t] = @ + 1]
Zero == <<0, 0>>
None == [op |-> "none"]
Releases(mo) == mo \in {"rel", "acqrel", "sc"}
Acquires(mo) == mo \in {"acq", "acqrel", "sc"}
MemInit(vars, n, fill) ==
  /\ hist = [x \in vars |-> <<[val |-> 0, clk |-> Zero, t |-> 0, at |-> 0]>>]
  /\ vc = <<Zero, Zero>> /\ rel = <<Zero, Zero>> /\ acq = <<Zero, Zero>>
  /\ seen = [t \in {1, 2} |-> [x \in vars |-> 1]]
  /\ cells = [i \in 0..n-1 |-> [val |-> fill, wt |-> 0, w |-> 0, r |-> Zero]]

\* the oldest store of x that thread t may still read
Floor(t, x) ==
  LET known == {i \in 1..Len(hist[x]) : hist[x][i].t # 0 /\ hist[x][i].at <= vc[t][hist[x][i].t]} IN
  FoldLeft(NumMax, seen[t][x], SetToSeq(known))
Load(t, x, back, mo) ==
  LET i == Len(hist[x]) - back
      s == hist[x][i]
      v1 == Tick(t) IN
  /\ i >= Floor(t, x)
  /\ seen' = [seen EXCEPT ![t][x] = i]
  /\ vc' = IF Acquires(mo) THEN [v1 EXCEPT ![t] = Join(@, s.clk)] ELSE v1
  /\ acq' = [acq EXCEPT ![t] = Join(@, s.clk)]
  /\ UNCHANGED <<hist, rel, cells>>
Loaded(x, back) == hist[x][Len(hist[x]) - back].val
Store(t, x, v, mo) ==
  LET v1 == Tick(t)
      c == IF Releases(mo) THEN v1[t] ELSE rel[t] IN
  /\ vc' = v1
  /\ hist' = [hist EXCEPT ![x] = Append(@, [val |-> v, clk |-> c, t |-> t, at |-> v1[t][t]])]
  /\ seen' = [seen EXCEPT ![t][x] = Len(hist[x]) + 1]
  /\ UNCHANGED <<rel, acq, cells>>
Fence(t, mo) ==
  LET v1 == Tick(t)
      v2 == IF Acquires(mo) THEN [v1 EXCEPT ![t] = Join(@, acq[t])] ELSE v1 IN
  /\ vc' = v2 /\ rel' = IF Releases(mo) THEN [rel EXCEPT ![t] = v2[t]] ELSE rel
  /\ UNCHANGED <<hist, acq, seen, cells>>
Other(t) == 3 - t
\* no race: the other thread's last conflicting access happened before
MayRead(t, i) == cells[i].wt \in {0, t} \/ cells[i].w <= vc[t][Other(t)]
MayWrite(t, i) == MayRead(t, i) /\ cells[i].r[Other(t)] <= vc[t][Other(t)]
ReadCells(t, at, n) ==
  LET v1 == Tick(t) IN
  /\ vc' = v1
  /\ cells' = [i \in DOMAIN cells |-> IF i \in at..at+n-1 THEN [cells[i] EXCEPT !.r[t] = v1[t][t]] ELSE cells[i]]
  /\ UNCHANGED <<hist, rel, acq, seen>>
WriteCells(t, at, vals) ==
  LET v1 == Tick(t) IN
  /\ vc' = v1
  /\ cells' = [i \in DOMAIN cells |-> IF i \in at..at+Len(vals)-1
                 THEN [cells[i] EXCEPT !.val = vals[i - at + 1], !.wt = t, !.w = v1[t][t]] ELSE cells[i]]
  /\ UNCHANGED <<hist, rel, acq, seen>>

\* ---- the queue as its users see it -------------------------------------------------------------------------
Invoke(t, op, n, partial, items) ==
  /\ call[t] = None
  /\ call' = [call EXCEPT ![t] = [op |-> op, n |-> n, partial |-> partial, items |-> items, e0 |-> Len(enq), d0 |-> deq]]
  /\ UNCHANGED <<cap, enq, deq, stale>>
Inflight(t, k) == IF call[t] = None \/ call[t].op = "size" THEN 0 ELSE call[t].n
Honoured(c, k, avails) ==
  \E a \in avails : k = IF c.n <= a THEN c.n ELSE IF c.partial THEN a ELSE 0
\* what the producer may believe to be free / the consumer to be filled at some moment of the call
FreeSeen == {cap - (Len(enq) - d) : d \in (IF stale THEN NumMax(0, Len(enq) - cap) ELSE call[1].d0)..NumMin(deq + Inflight(2, 0), Len(enq))}
FilledSeen == {e - deq : e \in (IF stale THEN deq ELSE NumMax(deq, call[2].e0))..(Len(enq) + Inflight(1, 0))}
EnqReturn(k) ==
  LET c == call[1] IN
  /\ c.op = "enq"
  /\ Honoured(c, k, {a \in FreeSeen : a >= 0})
  /\ enq' = enq \o SubSeq(c.items, 1, k)
  /\ deq <= Len(enq) + k
  /\ Len(enq) + k - (deq + Inflight(2, 0)) <= cap
  /\ call' = [call EXCEPT ![1] = None] /\ UNCHANGED <<cap, deq, stale>>
\* items that may be taken: the returned ones and those of the enqueue in progress
Available == enq \o (IF call[1] # None /\ call[1].op = "enq" THEN call[1].items ELSE <<>>)
DeqReturn(k, items) ==
  LET c == call[2] IN
  /\ c.op = "deq"
  /\ Honoured(c, k, {a \in FilledSeen : a >= 0})
  /\ deq + k <= Len(Available)
  /\ items = SubSeq(Available, deq + 1, deq + k)
  /\ deq' = deq + k
  /\ call' = [call EXCEPT ![2] = None] /\ UNCHANGED <<cap, enq, stale>>
SizeReturn(t, k) ==
  LET c == call[t] IN
  /\ c.op = "size"
  /\ k \in 0..cap
  /\ IF t = 1 THEN k \in {cap - a : a \in FreeSeen} ELSE k \in FilledSeen
  /\ call' = [call EXCEPT ![t] = None] /\ UNCHANGED <<cap, enq, deq, stale>>
Bounded == Len(enq) - deq <= cap + Inflight(2, 0)
=============================================================================
