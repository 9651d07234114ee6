----------------------------- MODULE SmallTrace ------------------------------
EXTENDS Small, TraceUtil
VARIABLES l
tvars == <<v, q, l>>
Rec == Trace[l]
Is(x) == l <= Len(Trace) /\ Rec.ev = x /\ l' = l + 1
TInit == v = <<>> /\ q = <<>> /\ l = 1
TBegin == Is("init") /\ v' = <<>> /\ q' = <<>>
\* Rec.all: contents of every container in the order of their ids, Rec.ids; Rec.bad: elements made, destroyed
\* or assigned wrongly; Rec.views: element access, iteration and data agree
State == /\ Eq("contents", [i \in DOMAIN Rec.ids |-> <<Rec.ids[i], Rec.all[i]>>], [i \in DOMAIN Rec.ids |-> <<Rec.ids[i], v'[Rec.ids[i]]>>])
         /\ Eq("containers", {Rec.ids[i] : i \in DOMAIN Rec.ids}, DOMAIN v')
         /\ Eq("life of elements", Rec.bad, 0) /\ Eq("views", Rec.views, TRUE)
\* the recorded contents of container id
Seen(id) == LET i == CHOOSE i \in DOMAIN Rec.ids : Rec.ids[i] = id IN Rec.all[i]
TMake == /\ Is("make")
         /\ CASE Rec.how = "size" -> IF Rec.n > Rec.cap THEN Eq("refused", Rec.threw, TRUE) /\ UNCHANGED svars
                                     ELSE Eq("size", Len(Seen(Rec.id)), Rec.n) /\ Set(Rec.id, Seen(Rec.id))
              [] OTHER -> IF Len(Rec.list) > Rec.cap THEN Eq("refused", Rec.threw, TRUE) /\ UNCHANGED svars ELSE Eq("refused", Rec.threw, FALSE) /\ Set(Rec.id, Rec.list)
         /\ State
TCopy == Is("copy") /\ Set(Rec.dst, v[Rec.src]) /\ State
\* what is moved from holds anything valid
TMove == /\ Is("move")
         /\ IF Rec.dst = Rec.src THEN v' = Put(Rec.src, Seen(Rec.src))
            ELSE v' = [x \in DOMAIN v \cup {Rec.dst} |-> IF x = Rec.dst THEN v[Rec.src] ELSE IF x = Rec.src THEN Seen(Rec.src) ELSE v[x]]
         /\ Same /\ State
TSwap == Is("swap") /\ v' = [v EXCEPT ![Rec.dst] = v[Rec.src], ![Rec.src] = v[Rec.dst]] /\ Same /\ State
TPush == /\ Is("push")
         /\ IF Len(v[Rec.id]) >= Rec.cap THEN Eq("refused", Rec.threw, TRUE) /\ UNCHANGED svars ELSE Eq("refused", Rec.threw, FALSE) /\ Set(Rec.id, Pushed(v[Rec.id], Rec.x))
         /\ State
\* one of its own elements (from 1)
TPushOwn == Is("pushown") /\ Set(Rec.id, Pushed(v[Rec.id], v[Rec.id][Rec.i])) /\ State
TPop == Is("pop") /\ Set(Rec.id, Popped(v[Rec.id])) /\ State
TResize == /\ Is("resize")
           /\ LET s == Seen(Rec.id)  k == Kept(v[Rec.id], Rec.n) IN
              Eq("size", Len(s), Rec.n) /\ Eq("kept", SubSeq(s, 1, Len(k)), k) /\ Set(Rec.id, s)
           /\ State
TWrite == Is("write") /\ Set(Rec.id, Write(v[Rec.id], Rec.i, Rec.x)) /\ State
TAt == /\ Is("at")
       /\ IF Rec.i \in 1..Len(v[Rec.id]) THEN Eq("at", <<Rec.threw, Rec.x>>, <<FALSE, v[Rec.id][Rec.i]>>) ELSE Eq("refused", Rec.threw, TRUE)
       /\ UNCHANGED svars /\ State
TCompare == Is("compare") /\ Eq("equal", <<Rec.eq, Rec.ne>>, <<v[Rec.a] = v[Rec.b], v[Rec.a] # v[Rec.b]>>) /\ UNCHANGED svars /\ State
TEnds == Is("ends") /\ Eq("front, back", <<Rec.front, Rec.back>>, <<v[Rec.id][1], v[Rec.id][Len(v[Rec.id])]>>) /\ UNCHANGED svars /\ State
TFree == Is("free") /\ v' = Drop(Rec.id) /\ Same /\ State
TEnd == Is("end") /\ Eq("elements left", Rec.live, 0) /\ Eq("memory left", Rec.blocks, 0) /\ Eq("life of elements", Rec.bad, 0) /\ UNCHANGED svars
\* fractions
Reg(i, x) == q' = [y \in DOMAIN q \cup {i} |-> IF y = i THEN x ELSE q[y]] /\ UNCHANGED v
Shown(x) == Eq("fraction", Rec.r, x) /\ Eq("text", Rec.text, IF x[2] = 1 THEN ToString(x[1]) ELSE ToString(x[1]) \o "/" \o ToString(x[2]))
            /\ Eq("whole", Rec.whole, Whole(x)) /\ Eq("nonzero", Rec.nonzero, x[1] # 0) /\ Eq("value", Rec.value, TRUE)
TNum == Is("num") /\ LET x == Norm(Rec.n, Rec.d) IN Shown(x) /\ Reg(Rec.id, x)
TCalc == Is("calc") /\ LET x == Calc(Rec.op, q[Rec.a], q[Rec.b]) IN Shown(x) /\ Reg(Rec.id, x)
TNeg == Is("neg") /\ LET x == <<-q[Rec.a][1], q[Rec.a][2]>> IN Shown(x) /\ Reg(Rec.id, x)
TRel == Is("rel") /\ UNCHANGED svars
        /\ LET x == q[Rec.a]  y == q[Rec.b] IN Eq("relations", Rec.r, <<x = y, x # y, Less(x, y), ~Less(y, x), Less(y, x), ~Less(x, y)>>)
TNext == TBegin \/ TMake \/ TCopy \/ TMove \/ TSwap \/ TPush \/ TPushOwn \/ TPop \/ TResize \/ TWrite \/ TAt \/ TCompare \/ TEnds \/ TFree \/ TEnd
         \/ TNum \/ TCalc \/ TNeg \/ TRel
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
