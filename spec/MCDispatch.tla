----------------------------- MODULE MCDispatch ------------------------------
(* The dispatch of the library - a switch that falls through the sets the     *)
(* program does not hold, objects bound to the code of their making, a plan   *)
(* that is run by the code of the moment - against the specification.         *)
EXTENDS Dispatch, TLC
VARIABLES ran, got
vars == <<en, sel, o, ran, got>>
Sets == { {1, 4, 6, 7, 8}, {1, 7}, {4, 6, 8}, {1} }
Init == en \in Sets /\ sel = 8 /\ o = <<>> /\ ran = {} /\ got = TRUE
\* falls through from the selected case to the next one that holds code
RECURSIVE Switch(_)
Switch(c) == IF c \in en THEN c ELSE IF c = 1 THEN 0 ELSE Switch(c - 1)
Gate == Switch(sel)
Choose == \E c \in 1..8 : c >= Base /\ Select(c) /\ ran' = {} /\ UNCHANGED got
Create == \E id \in {1, 2} : id \notin DOMAIN o /\ Make(id, "fir", <<1, 2>>) /\ ran' = {Gate} /\ UNCHANGED got
\* the code of its making, called from the code of the moment
Use == \E id \in DOMAIN o : \E x \in {<<>>, <<1>>, <<2, 1>>} :
         /\ Len(o[id].hist) + Len(x) <= 3 /\ Feed(id, x)
         /\ ran' = {o[id].made, Gate}
         /\ got' = (Output(o'[id], Len(x)) = [i \in 1..Len(x) |-> At(o'[id].hist, Len(o[id].hist) + i) + 2 * At(o'[id].hist, Len(o[id].hist) + i - 1)])
Next == Choose \/ Create \/ Use \/ (\E id \in DOMAIN o : Restart(id) /\ ran' = {Gate} /\ UNCHANGED got) \/ (\E id \in DOMAIN o : Drop(id) /\ ran' = {} /\ UNCHANGED got)
Spec == Init /\ [][Next]_vars
Values == got
Limits == Gate = Resolve(sel) /\ \A r \in ran : r \in en /\ (r <= Resolve(sel) \/ \E id \in DOMAIN o : r <= o[id].made)
\* broken: rises to the next set with code instead
RECURSIVE Rise(_)
Rise(c) == IF c \in en THEN c ELSE IF c = 8 THEN 0 ELSE Rise(c + 1)

\* the library's choice for a processor
Detected(f) == LET os == {4, 5} \subseteq f IN
  IF {8, 9, 10, 11, 12} \subseteq f /\ os /\ {6, 7, 13} \subseteq f THEN 8 ELSE IF {6, 7, 13} \subseteq f /\ os THEN 7 ELSE IF os THEN 6
  ELSE IF 3 \in f THEN 5 ELSE IF 2 \in f THEN 4 ELSE IF 1 \in f THEN 3 ELSE IF 0 \in f THEN 2 ELSE 1
Chains == { UNION {Needs(j) : j \in 1..k} : k \in 1..8 }
ASSUME \A f \in Chains : Orderly(f) /\ Detected(f) = Best(f) /\ Detected(f) \in Supported(f)
=============================================================================
