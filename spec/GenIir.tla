------------------------------- MODULE GenIir -------------------------------
(* Behaviours of Iir for replay.  Sections are drawn so that every value     *)
(* stays an exactly representable integer: at most two recursive sections    *)
(* (poles on the unit circle) and three with more than one numerator tap.    *)
EXTENDS Iir, TLC, Json
CONSTANTS Variants, Counts, BlockLens, Modes, MaxOps, Kinds
VARIABLES script, n
vars == <<c, script, n>>
Pick(S) == {RandomElement(S)}
Plain == { <<0, 0, 1, 0, 0>>, <<0, 0, 0, 1, 0>>, <<0, 0, 0, 0, 1>>, <<0, 0, -1, 0, 0>>, <<0, 0, 0, -1, 0>> }
Multi == { <<0, 0, 1, 1, 0>>, <<0, 0, 1, 0, -1>>, <<0, 0, 1, -1, 1>>, <<0, 0, 0, 2, 1>>, <<0, 0, 1, 0, 1>> }
Recur == { <<-1, 0, 1, 0, 0>>, <<1, 0, 0, 1, 0>>, <<0, 1, 1, 0, 0>>, <<0, -1, 1, 0, 1>>, <<1, 1, 0, 0, 1>>, <<-1, 1, 1, 0, 0>> }
RECURSIVE Build(_, _, _)
Build(k, nr, nm) ==
  IF k = 0 THEN <<>>
  ELSE LET d == RandomElement(1..6) IN
       IF d <= 2 /\ nr > 0 THEN <<RandomElement(Recur)>> \o Build(k - 1, nr - 1, nm)
       ELSE IF d <= 4 /\ nm > 0 THEN <<RandomElement(Multi)>> \o Build(k - 1, nr, nm - 1)
       ELSE <<RandomElement(Plain)>> \o Build(k - 1, nr, nm)
Init == n = 0 /\ c = <<>> /\ script = <<>>
Start == /\ n = 0 /\ n' = 1
         /\ \E v \in Pick(Variants), k \in Pick(Counts) : \E s \in {Build(k, 2, 3)} :
              /\ script' = [v |-> v, sec |-> s, seed |-> RandomElement(1..1000000), p |-> RandomElement(0..7), ops |-> <<>>]
              /\ c' = [o \in {1, 2} |-> Fresh(s, 0)]
Add(op) == script' = [script EXCEPT !.ops = Append(@, op)] /\ n' = n + 1
GFeed(o) == \E b \in Pick(BlockLens) : Add(<<"F", o, RandomElement(Modes), b>>) /\ UNCHANGED c
GReset(o) == Add(<<"R", o>>) /\ Reset(o)
GSet(o) == \E s \in {Build(Len(c[o].sec), 2, 3)} : Add(<<"S", o, FlattenSeq(s)>>) /\ SetSections(o, s)
GCopy(o) == Add(<<"C", o, 3 - o>>) /\ CopyTo(o, 3 - o)
Step == /\ n > 0 /\ n <= MaxOps
        /\ \E k \in Pick(Kinds), o \in Pick({1, 2}) :
             CASE k[1] = "R" -> GReset(o) [] k[1] = "S" -> GSet(o) [] k[1] = "C" -> GCopy(o) [] OTHER -> GFeed(o)
Finish == n = MaxOps + 1 /\ n' = n + 1 /\ PrintT(<<"SCRIPT", ToJson(script)>>) /\ UNCHANGED <<c, script>>
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
AllKinds == {<<"F", i>> : i \in 1..8} \cup {<<"R", 0>>, <<"S", 0>>, <<"C", 0>>}
=============================================================================
