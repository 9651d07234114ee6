------------------------------ MODULE TraceUtil ------------------------------
(* Shared by the trace specifications: the recorded trace, its position and   *)
(* the acceptance condition.                                                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* Accepted iff every recorded step was matched (one state per line plus the initial one).
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)

\* Equality that explains itself when it fails.
Eq(what, got, exp) == IF got = exp THEN TRUE ELSE PrintT(<<"EXPECT", what, exp, "GOT", got>>) /\ FALSE
=============================================================================
