------------------------------- MODULE Scan --------------------------------
(* A laser scan: a pose and the points seen from it, plus the reference     *)
(* point ("barycenter") that map queries use.  The implementation caches    *)
(* the reference point behind a dirty flag; the property is that nobody can *)
(* tell.  The arithmetic is a parameter: the design is checked on a lattice *)
(* (MC_Scan), executions are judged with IEEE doubles (Tr_Scan).            *)
EXTENDS Naturals, Sequences
CONSTANTS Ref(_, _),    \* reference point of (pose, points)
          Pose0         \* pose of a new scan
VARIABLES pose, pts, dirty, cache, answer
vars == <<pose, pts, dirty, cache, answer>>

None == <<>>
Init == /\ pose = Pose0 /\ pts = <<>> /\ dirty = TRUE /\ cache = Pose0 /\ answer = None
SetPose(p) == /\ pose' = p /\ dirty' = TRUE /\ answer' = None /\ UNCHANGED <<pts, cache>>
SetPoints(q) == /\ pts' = q /\ dirty' = TRUE /\ answer' = None /\ UNCHANGED <<pose, cache>>
Query == /\ cache' = IF dirty THEN Ref(pose, pts) ELSE cache
         /\ dirty' = FALSE
         /\ answer' = <<cache'>>
         /\ UNCHANGED <<pose, pts>>
(* K01 *)
CacheCoherent == ~dirty => cache = Ref(pose, pts)
AnswerFresh == answer # None => answer = <<Ref(pose, pts)>>
=============================================================================
