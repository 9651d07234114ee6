------------------------------- MODULE MCCapi --------------------------------
(* Whatever happens to the other objects, what a filter gives is determined   *)
(* by what it was fed since it was made or reset; a failed call leaves an     *)
(* error and no object, a good one no error.                                  *)
EXTENDS Capi, TLC
CONSTANTS Slots, MaxFed
VARIABLES fed, good, last
vars == <<o, err, fed, good, last>>
Args == { <<"fir", FALSE, <<1, 2>>>>, <<"conv", FALSE, <<0, 1, -1>>>>, <<"iir", FALSE, <<-1, 0, 1, 0, 1>>>>,
          <<"fir", TRUE, <<1>>>>, <<"real", FALSE, <<3>>>>, <<"real", FALSE, <<4>>>>, <<"dft2", FALSE, <<2, 0>>>> }
Init == o = <<>> /\ err = FALSE /\ fed = [s \in Slots |-> <<>>] /\ good = TRUE /\ last = "ok"
MMake(s) == \E a \in Args : /\ s \notin DOMAIN o /\ Make(s, a[1], a[2], a[3], 1) /\ fed' = [fed EXCEPT ![s] = <<>>] /\ UNCHANGED good
                            /\ last' = IF ValidArgs(a[1], a[2], a[3]) THEN "ok" ELSE "bad"
MFail(s) == s \notin DOMAIN o /\ Fail(s) /\ last' = "bad" /\ UNCHANGED <<fed, good>>
MDelete(s) == Delete(s) /\ last' = "ok" /\ fed' = [fed EXCEPT ![s] = <<>>] /\ UNCHANGED good
Filter(s) == s \in DOMAIN o /\ o[s].k \in {"fir", "conv", "iir"}
\* the definition: the whole history through a new object
Whole(y, h) == Feed(Clean(y), h).out
MProcess(s) == /\ Filter(s) /\ \E b \in { <<>>, <<1>>, <<-1, 2>> } :
                 /\ Len(fed[s]) + Len(b) <= MaxFed /\ Process(s, b) /\ fed' = [fed EXCEPT ![s] = @ \o b]
                 /\ good' = (Whole(o[s], fed[s]) \o Feed(o[s], b).out = Whole(o[s], fed'[s]))
               /\ last' = "ok"
MReset(s) == Filter(s) /\ Reset(s) /\ fed' = [fed EXCEPT ![s] = <<>>] /\ last' = "ok" /\ UNCHANGED good
Next == \E s \in Slots : MMake(s) \/ MFail(s) \/ MDelete(s) \/ MProcess(s) \/ MReset(s)
Spec == Init /\ [][Next]_vars
Good == good
Errors == err = (last = "bad")
Live == \A s \in DOMAIN o : s \in Slots
\* broken: a reset that forgets to clear
NoClean(y) == y
=============================================================================
