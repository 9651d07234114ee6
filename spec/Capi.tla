-------------------------------- MODULE Capi ---------------------------------
(* The C interface: numbered objects made, used and deleted, and the message  *)
(* of the last error.  An object is what its C++ counterpart is: a transform  *)
(* of a shape, a cosine transform, or a linear filter whose output depends on *)
(* everything fed since it was made or reset.                                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES o,    \* slot -> object, for the slots in use
          err   \* is there an error message
cvars == <<o, err>>
D == INSTANCE Dft WITH kind <- "c", shape <- <<>>, buf <- <<>>
K == INSTANCE Dct WITH size <- 0, buf <- <<>>
F == INSTANCE Fir WITH f <- <<>>
I == INSTANCE Iir WITH c <- <<>>
Complex == {"dft", "dft2", "dft3", "dftmd"}
RealData == {"real", "real2", "real3", "realmd"}
Multi == {"dft2", "dft3", "dftmd", "real2", "real3", "realmd"}
Arrays == {"dftmd", "realmd", "fir", "conv", "iir"}
Transforms == Complex \cup RealData \cup {"dct"}
MaxSections == 64
\* p: sizes (negative ones stand for sizes that cannot be allocated), taps or coefficients; null: no array given
ValidArgs(k, null, p) ==
  /\ k \in Arrays => ~null /\ Len(p) > 0
  /\ k \in Transforms => \A i \in DOMAIN p : p[i] >= 0
  /\ k \in Multi => \A i \in DOMAIN p : p[i] > 0
  /\ k \in RealData => p[Len(p)] % 2 = 0
  /\ k = "iir" => Len(p) \div 5 <= MaxSections
Sections(p) == [i \in 1..(Len(p) \div 5) |-> SubSeq(p, 5 * i - 4, 5 * i)]
Object(k, p, x) ==
  IF k \in Transforms THEN [k |-> k, sh |-> p, x |-> x]
  ELSE IF k = "iir" THEN [k |-> k, sec |-> Sections(p), st |-> [i \in 1..(Len(p) \div 5) |-> <<0, 0>>]]
  ELSE [k |-> k, taps |-> p, line |-> F!EmptyLine(p)]
With(s, y) == [z \in DOMAIN o \cup {s} |-> IF z = s THEN y ELSE o[z]]
Without(s) == [z \in DOMAIN o \ {s} |-> o[z]]
Make(s, k, null, p, x) ==
  IF ValidArgs(k, null, p) THEN o' = With(s, Object(k, p, x)) /\ err' = FALSE
  ELSE o' = Without(s) /\ err' = TRUE
\* there was not enough memory
Fail(s) == o' = Without(s) /\ err' = TRUE
Delete(s) == o' = Without(s) /\ err' = FALSE
Elements(s) == D!Prod(o[s].sh)
\* filters: one block
Feed(y, blk) ==
  IF y.k = "iir" THEN LET r == I!CasBlock(y.sec, y.st, blk) IN [out |-> r.out, y |-> [y EXCEPT !.st = r.st]]
  ELSE LET e == y.line \o blk IN
       [out |-> F!Outputs(y.taps, e, Len(blk)), y |-> [y EXCEPT !.line = F!LastN(e, Len(y.taps) - 1)]]
Process(s, blk) == o' = [o EXCEPT ![s] = Feed(o[s], blk).y] /\ err' = FALSE
Clean(y) == IF y.k = "iir" THEN [y EXCEPT !.st = [i \in DOMAIN y.sec |-> <<0, 0>>]] ELSE [y EXCEPT !.line = F!EmptyLine(y.taps)]
Reset(s) == o' = [o EXCEPT ![s] = Clean(@)] /\ err' = FALSE
Used == err' = FALSE /\ UNCHANGED o
=============================================================================
