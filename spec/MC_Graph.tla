------------------------------ MODULE MC_Graph ------------------------------
(* Lattice instance, and the histories replayed on the real graph.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxScans, MaxCons, MaxSteps
VARIABLES bary, scans, cons, disk, step, saved
LRef(s, m) == IF m /\ s.pts # <<>>
              THEN [x |-> 2 * s.pose.x + s.pts[1].x + s.pts[Len(s.pts)].x, y |-> 2 * s.pose.y + s.pts[1].y + s.pts[Len(s.pts)].y]
              ELSE [x |-> 2 * s.pose.x, y |-> 2 * s.pose.y]   \* doubled coordinates
LDist2(a, b) == (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)
LLt(a, b) == a < b
LSq(a) == a * a
G == INSTANCE Graph WITH Ref <- LRef, Dist2 <- LDist2, Lt <- LLt, Sq <- LSq
Poses == {[x |-> 0, y |-> 0], [x |-> 1, y |-> 0], [x |-> 0, y |-> 2]}
PtsSets == {<<>>, <<[x |-> 1, y |-> 0]>>, <<[x |-> -1, y |-> 1], [x |-> 3, y |-> 1]>>}
Init == (\E m \in BOOLEAN : G!GInit(m)) /\ step = 0 /\ saved = <<>>
Next == /\ step < MaxSteps /\ step' = step + 1
        /\ \/ \E p \in Poses, q \in PtsSets : Len(scans) < MaxScans /\ G!AddScan([id |-> Len(scans), pose |-> p, pts |-> q]) /\ UNCHANGED saved
           \/ \E b, e \in 0..(Len(scans) - 1), sw \in BOOLEAN : Len(cons) < MaxCons /\ b # e /\ G!AddCon([b |-> b, e |-> e, tr |-> 0, info |-> 0, sw |-> sw]) /\ UNCHANGED saved
           \/ \E i \in 1..Len(scans), p \in Poses : scans[i].pose # p /\ G!MoveScan(i, p) /\ UNCHANGED saved
           \/ G!Save("f") /\ saved' = <<scans, cons>>
           \/ G!Load("f") /\ UNCHANGED saved
(* G01 *)
FileIsWhatWasSaved == saved # <<>> => disk["f"] = [scans |-> saved[1], cons |-> saved[2]]
ResaveIsIdentity == saved # <<>> /\ <<scans, cons>> = saved => disk["f"] = [scans |-> scans, cons |-> cons]
(* G02 *)
QScan == [id |-> 9, pose |-> [x |-> 1, y |-> 1], pts |-> <<>>]
Monotone == \A d \in {0, 2, 4}, lim \in {-1} \cup 1..Len(scans) : scans # <<>> =>
  /\ G!Near(QScan, d, lim) \subseteq G!Near(QScan, d + 1, lim)
  /\ G!Near(QScan, d, lim) \subseteq G!Near(QScan, d, -1)
  /\ G!Near(QScan, 0, lim) = {}
  /\ \A i \in 0..(G!Allowed(lim) - 1) : (scans[i + 1].pose = QScan.pose /\ (~bary \/ scans[i + 1].pts = <<>>) /\ d > 0) => i \in G!Near(QScan, d, lim)
(* G03 *)
Drawn == Len(G!NodeMarkers) = Len(scans) /\ Len(G!EdgeMarkers) = Len(cons)
Words == {"s", "c", "m", "n", "l", "w", "r", "v"}
GenLen == atoi(IOEnv.GENLEN)
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq([1..GenLen -> Words]))
=============================================================================
