------------------------------- MODULE MCNpy ---------------------------------
(* All header tails up to a length and all truncations: loading ends, and     *)
(* success means that everything was there.                                   *)
EXTENDS Npy, FiniteSets
CONSTANTS MaxLen, MaxPart
VARIABLES s, sk, parts, n, rd, steps
vars == <<s, sk, parts, n, rd, steps>>
Sym == {"(", ")", "[", "]", ",", "x", "}"}
Strings == UNION {[1..k -> Sym] : k \in 0..MaxLen}
Init == /\ s \in Strings /\ sk = SkipInit /\ steps = 0
        /\ \/ parts = <<2, 1, 2>> /\ n = 5                     \* the strings with one file
           \/ s = <<>> /\ parts \in [1..4 -> 0..MaxPart] /\ n \in 0..(4 * MaxPart)
        /\ rd = ReadInit
Next == \/ sk.res = "run" /\ sk' = SkipStep(sk, s) /\ steps' = steps + 1 /\ UNCHANGED <<s, parts, n, rd>>
        \/ sk.res # "run" /\ rd.res = "run" /\ rd' = ReadStep(rd, parts, n) /\ UNCHANGED <<s, sk, parts, n, steps>>
Spec == Init /\ [][Next]_vars

Ends == steps <= MaxLen + 1
\* depth of nesting before position i, counting all kinds alike
Depth(i) == Cardinality({j \in 1..(i - 1) : s[j] \in Openers}) - Cardinality({j \in 1..(i - 1) : s[j] \in Closers})
\* where it stops is the first comma or brace outside all brackets
Stops == sk.res \in {"next", "end"} =>
           /\ Depth(sk.pos) = 0 /\ s[sk.pos] = (IF sk.res = "next" THEN "," ELSE "}")
           /\ \A j \in 1..(sk.pos - 1) : Depth(j) >= 0 /\ ~(Depth(j) = 0 /\ s[j] \in {",", "}"})
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE p[1] + Total(Tail(p))
Complete == rd.res = "ok" => n >= Total(parts) /\ rd.pos = Total(parts)
NoFalseAlarm == rd.res = "error" => n < Total(parts)
\* broken: an opening bracket is noted but not passed
StuckAhead(c) == IF c \in Openers THEN 0 ELSE 1
\* broken: whether there was enough to read is not looked at
AnyFits(pos, size, k) == TRUE
=============================================================================
