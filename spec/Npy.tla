-------------------------------- MODULE Npy ----------------------------------
(* NPY files: magic, version, header length, header text, data.  A loader     *)
(* reads the parts in order and may only report success when every part was   *)
(* there and the header describes exactly what was asked for.                 *)
EXTENDS Integers, Sequences, TLC

Closer(c) == CASE c = "(" -> ")" [] c = "[" -> "]" [] c = "{" -> "}" [] OTHER -> "-"
Openers == {"(", "[", "{"}
Closers == {")", "]", "}"}
\* skipping the value of an unknown field: the position, the closers still awaited, the verdict
SkipInit == [pos |-> 1, open |-> <<>>, res |-> "run"]
Ahead(c) == 1
SkipStep(st, s) ==
  IF st.pos > Len(s) THEN [st EXCEPT !.res = "error"]
  ELSE LET c == s[st.pos] IN
    IF c \in Openers THEN [st EXCEPT !.open = Append(@, Closer(c)), !.pos = @ + Ahead(c)]
    ELSE IF c \in Closers THEN
      IF st.open = <<>> THEN [st EXCEPT !.res = IF c = "}" THEN "end" ELSE "error"]
      ELSE IF st.open[Len(st.open)] # c THEN [st EXCEPT !.res = "error"]
      ELSE [st EXCEPT !.open = SubSeq(@, 1, Len(@) - 1), !.pos = @ + Ahead(c)]
    ELSE IF c = "," /\ st.open = <<>> THEN [st EXCEPT !.res = "next"]
    ELSE [st EXCEPT !.pos = @ + Ahead(c)]

\* reading the parts of the file, n bytes of which are there
ReadInit == [part |-> 1, pos |-> 0, res |-> "run"]
Fits(pos, size, n) == pos + size <= n
ReadStep(st, parts, n) ==
  IF st.part > Len(parts) THEN [st EXCEPT !.res = "ok"]
  ELSE IF Fits(st.pos, parts[st.part], n) THEN [st EXCEPT !.pos = @ + parts[st.part], !.part = @ + 1]
  ELSE [st EXCEPT !.res = "error"]

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o ", " \o Join(Tail(s))
ShapeText(s) == "(" \o Join(s) \o (IF Len(s) = 1 THEN ",)" ELSE ")")
ByteSized == {"u1", "i1", "b1"}
TypeText(c) == (IF c \in ByteSized THEN "|" ELSE "<") \o c
HeaderText(c, s) == "{'descr': '" \o TypeText(c) \o "', 'fortran_order': False, 'shape': " \o ShapeText(s) \o ", }"

\* element e (C order from 0) of an array of shape s stored in Fortran order: its place in the file
RECURSIVE Place(_, _, _)
Place(e, s, stride) == IF s = <<>> THEN 0
  ELSE LET inner == Prod(Tail(s)) IN (e \div inner) * stride + Place(e % inner, Tail(s), stride * s[1])
Where(e, s, order) == IF order = "f" THEN Place(e, s, 1) ELSE e
=============================================================================
