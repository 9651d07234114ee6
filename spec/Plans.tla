-------------------------------- MODULE Plans -------------------------------
(* The plan cache shared by all threads, and plan execution.                 *)
(* A key is <<kind, precision, size>>.  cache maps a key to the identity of  *)
(* the plan it holds; identity 0 is a plan nobody has looked at yet (made on  *)
(* behalf of a convenience function).  seen: identities ever handed out.     *)
(* Executing a plan is a function of the data alone: it changes neither the  *)
(* plan nor the cache.                                                       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cache, seen
cvars == <<cache, seen>>
Empty == [k \in {} |-> 0]
With(f, k, x) == [j \in (DOMAIN f) \cup {k} |-> IF j = k THEN x ELSE f[j]]
CInit == cache = Empty /\ seen = {}
\* get(key) returning identity id
Get(k, id) ==
  /\ IF k \in DOMAIN cache /\ cache[k] # 0 THEN id = cache[k] ELSE id \notin seen
  /\ id # 0
  /\ cache' = With(cache, k, id) /\ seen' = seen \cup {id}
\* a convenience function (dft, idft, realdft, irealdft) uses the cached plan or adds one
Use(k) == cache' = (IF k \in DOMAIN cache THEN cache ELSE With(cache, k, 0)) /\ seen' = seen
Clear == cache' = Empty /\ seen' = seen
=============================================================================
