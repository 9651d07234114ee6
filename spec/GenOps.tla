------------------------------- MODULE GenOps -------------------------------
(* Histories of Ops for replay: variant v (C++ type and way of holding the   *)
(* state), parameter k (stage size index), blocks with their evaluation mode.*)
EXTENDS Ops, TLC, Json
CONSTANTS Variants, Pars, BlockLens, Modes, MaxOps
VARIABLES script, n
vars == <<p, script, n>>
Pick(S) == {RandomElement(S)}
Init == n = 0 /\ p = <<>> /\ script = <<>>
Start == /\ n = 0 /\ n' = 1 /\ p' = [o \in {1, 2} |-> Fresh(<<>>)]
         /\ \E v \in Pick(Variants), k \in Pick(Pars) :
              script' = [v |-> v, k |-> k, seed |-> RandomElement(1..1000000), ops |-> <<>>]
Add(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
Step == /\ n > 0 /\ n <= MaxOps
        /\ \E kd \in Pick(1..12), o \in Pick({1, 2}) :
             CASE kd = 1 -> Add(<<"Z", o>>) /\ Renew(o)
               [] kd = 2 -> Add(<<"C", o, 3 - o>>) /\ Copy(o, 3 - o)
               [] OTHER -> \E b \in Pick(BlockLens), m \in Pick(Modes) : Add(<<"F", o, m, b>>) /\ UNCHANGED p
Finish == n = MaxOps + 1 /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<p, script>>
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
