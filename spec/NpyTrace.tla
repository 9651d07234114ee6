------------------------------ MODULE NpyTrace -------------------------------
(* Recorded saves and loads of real arrays.                                   *)
EXTENDS Npy, TraceUtil
VARIABLES l
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == l = 1
TNew == Is("init")
Parts(c) == IF c \in {"c8", "c16"} THEN 2 ELSE 1
Ok == Rec.res = "ok"
\* the destination is left alone by a failure, and has as many elements as its shape says
Clean == Eq("left alone after an error", Ok \/ Rec.kept, TRUE) /\ Eq("size", Rec.size, TRUE)
TSave == /\ Is("S")
         /\ Eq("magic", Rec.magic, TRUE) /\ Eq("aligned", Rec.aligned, TRUE)
         /\ Eq("header", Rec.text, HeaderText(Rec.code, Rec.shape))
         /\ Eq("bytes", Rec.bytes, Prod(Rec.shape) * Rec.elem) /\ Eq("data", Rec.data, TRUE)
         /\ Eq("loaded", Rec.res, IF Rec.cut > 0 THEN "error" ELSE "ok") /\ Clean
         /\ (Ok => Eq("shape", Rec.lshape, Rec.shape) /\ Eq("values", Rec.vals, Rec.vals_in))
\* a well-formed file of what was asked for
Prefix == IF Rec.code \in ByteSized THEN {"|"} ELSE {"<", ">"}
Count == Prod(Rec.shape)
Enough == Rec.have >= Count
Fine == /\ Rec.damage = 0 /\ Rec.missing = 0 /\ Rec.dup = 0 /\ Rec.extra = 0 /\ Rec.big = 0 /\ Rec.cut = 0 /\ Rec.style = 0
        /\ Rec.ver \in 1..3 /\ Rec.code = Rec.dest /\ Rec.pre \in Prefix /\ Len(Rec.shape) = Rec.dims /\ Count > 0 /\ Enough
\* cannot be loaded: not the type or rank asked for, something needed is not there
Wrong == /\ Rec.damage = 0
         /\ \/ Rec.missing \in {1, 3} /\ Rec.dup # Rec.missing
            \/ (Rec.missing # 1 /\ Rec.code # Rec.dest)
            \/ Rec.ver \notin 1..3
            \/ (Rec.missing # 3 /\ (Len(Rec.shape) # Rec.dims \/ (Rec.big > 0 /\ Count > 0)))
            \/ (Rec.missing = 0 /\ Rec.dup = 0 /\ Rec.big = 0 /\ ((Rec.have * Rec.elem) - Rec.cut) < Count * Rec.elem)
            \/ Rec.missing # 1 /\ Rec.pre \in {"x", "_"}
            \/ Rec.extra \in 5..7
\* values in C order, undamaged
Val(e) == LET w == Where(e, Rec.shape, Rec.order) IN SubSeq(Rec.data, w * Rec.parts + 1, (w + 1) * Rec.parts)
Values == [i \in 1..(Count * Rec.parts) |-> Val((i - 1) \div Rec.parts)[((i - 1) % Rec.parts) + 1]]
TLoad == /\ Is("L") /\ Clean
         /\ (Fine => Eq("loaded", Rec.res, "ok"))
         /\ (Wrong \/ Rec.unclosed => Eq("loaded", Rec.res, "error"))
         /\ (Ok => /\ Eq("rank", Len(Rec.lshape), Rec.dims)
                   /\ Eq("more than there is", Prod(Rec.lshape) * Rec.elem <= Rec.room, TRUE)
                   /\ Eq("count", Len(Rec.vals), Prod(Rec.lshape) * Rec.parts))
         /\ (Ok /\ Rec.damage = 0 /\ Rec.missing = 0 /\ Rec.dup = 0 =>
               /\ Eq("shape", Rec.lshape, Rec.shape)
               /\ Eq("values", Rec.vals, SubSeq(Values, 1, Count * Rec.parts)))
TNext == TNew \/ TSave \/ TLoad
TSpec == TInit /\ [][TNext]_l
=============================================================================
