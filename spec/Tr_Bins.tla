------------------------------- MODULE Tr_Bins ------------------------------
(* P04: executions of the real bin counter.                                 *)
EXTENDS TraceBase
VARIABLES bins, count, size
RealBin(k) == <<RFloor(RDiv(k[1], k[4])), RFloor(RDiv(k[2], k[5])), RFloor(RDiv(k[3], k[6]))>>
B == INSTANCE Bins WITH BinOf <- RealBin
TInit == B!BInit /\ size = <<>> /\ l = 1
TNew == IsEvent("new") /\ bins' = {} /\ count' = 0 /\ size' = Ev.size
Counted == Must("number of distinct bins", Ev.n = count')
TInsert == IsEvent("insert") /\ B!Insert(Ev.k \o size) /\ UNCHANGED size /\ Counted
TClear == IsEvent("clear") /\ B!Clear /\ UNCHANGED size /\ Counted
TNext == TNew \/ TInsert \/ TClear
CountIsSize == B!CountIsSize
=============================================================================
