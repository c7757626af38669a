----------------------------- MODULE TraceBase -----------------------------
(* What all trace specifications share: a recorded execution of the real    *)
(* code (one JSON object per line, reals as strings) and the position in it.*)
(* A trace specification's Next consumes line l (and may take silent steps).*)
(* The trace is accepted iff some behaviour consumes all of it.             *)
EXTENDS R64, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ASSUME TLCSet(42, 0)
Track == IF TLCGet(42) < l THEN TLCSet(42, l) ELSE TRUE   \* CONSTRAINT; needs -workers 1
More == l <= Len(Trace)
Ev == Trace[l]
IsEvent(e) == /\ l <= Len(Trace)
              /\ Trace[l].e = e
              /\ l' = l + 1
(* Named conjunct: says which part of an event the specification rejects.   *)
Must(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"MISMATCH", l, name>>) /\ FALSE
Accepted == LET m == TLCGet(42) IN
  IF m = Len(Trace) + 1 THEN PrintT(<<"TRACE-ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"TRACE-REJECTED", m>>) /\ FALSE
=============================================================================
