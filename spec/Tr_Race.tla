------------------------------- MODULE Tr_Race -------------------------------
(* M11: memory accesses of recorded executions: two threads never access    *)
(* the same place unordered, one of them writing (unless both atomically).  *)
EXTENDS TraceBase
VARIABLES clk, obj, acs
RC == INSTANCE Race WITH Threads <- 1..4
TInit == l = 1 /\ RC!Begin({}, {})
TRun == IsEvent("run") /\ RC!Begin2(1..Ev.locs, 1..Ev.objs)
TSyn == IsEvent("syn") /\ RC!Sync(Ev.t, Ev.o, Ev.acq, Ev.rel)
Kinds == {"r", "w", "ar", "aw"}
TAcc == /\ IsEvent("acc")
        /\ \A k \in Kinds : \A i \in 1..Len(Ev[k]) : Must("ordered accesses", RC!Ordered(Ev.t, Ev[k][i], k))
        /\ RC!Touch(Ev.t, Ev)
TNext == TRun \/ TSyn \/ TAcc
View == l
=============================================================================
