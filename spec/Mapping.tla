------------------------------ MODULE Mapping -------------------------------
(* What the node decides: operators shared by the design (Mapper) and by    *)
(* the judgement of recorded executions (Tr_Mapper).  Geometry is a         *)
(* parameter.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Compose(_, _),    \* pose seen through another
          Relative(_, _)    \* second pose seen from the first
(* A tracked pair [r, o]: pose of the robot in the map and, at the same time, in the odometry frame *)
Predict(trk, o) == Compose(trk.r, Relative(trk.o, o))
MapToOdom(trk) == Compose(trk.r, Relative(trk.o, [x |-> 0, y |-> 0, t |-> 0]))
-----------------------------------------------------------------------------
(* What a scan leads to.  usable: all transforms are known; far: travelled  *)
(* enough since the last accepted scan or initial pose.                     *)
ScanOutcome(usable, loc, empty, far, pf, en) ==
  IF ~usable \/ ~loc \/ (~empty /\ ~far) THEN "none"
  ELSE IF pf THEN "filter" ELSE IF en THEN "map" ELSE "localize"
(* What an initial pose leads to.  near: some scan of the map is close.     *)
PoseOutcome(usable, loc, near, pf, en) ==
  IF (en /\ loc) \/ ~usable THEN "none"
  ELSE IF pf THEN "filter" ELSE IF ~en THEN "track" ELSE IF near THEN "node" ELSE "none"
EnabledAfter(en, c, pf) == IF c.enable THEN IF pf THEN en ELSE TRUE ELSE IF c.disable THEN FALSE ELSE en
Disables(c, pf) == c.disable /\ ~c.enable
LocalizedAfter(loc, c, pf, loaded) == loc /\ ~Disables(c, pf) /\ ~loaded
(* positions of the scans a new one is matched against when mapping, n in the map *)
Window(n, depth) == {i \in 0..(n - 1) : i >= n - depth}
(* loop closure: scans from here on are examined, against scans before their window *)
FirstExamined(depth) == depth + 1
Before(q, depth) == q - depth
Region(c) == {c - 1, c, c + 1}
MayClose(finite, better) == finite /\ better
WantsOptimize(closed, n, last, limit) == closed > 0 /\ n - last > limit
(* constraints as [b, to, sw]; poses[i + 1] is a node made from an initial pose iff how[i + 1] = "pose" *)
TiesTo(cons, i) == {k \in 1..Len(cons) : ~cons[k].sw /\ cons[k].to = i}
WellFormed(n, how, cons) ==
  /\ \A k \in 1..Len(cons) : cons[k].b \in 0..(n - 1) /\ cons[k].to \in 0..(n - 1) /\ cons[k].b # cons[k].to
  /\ \A i \in 1..(n - 1) : how[i + 1] \in {"scan", "pose"} =>
       /\ Cardinality(TiesTo(cons, i)) = 1
       /\ \A k \in TiesTo(cons, i) : IF how[i + 1] = "scan" THEN cons[k].b = i - 1 ELSE cons[k].b < i
=============================================================================
