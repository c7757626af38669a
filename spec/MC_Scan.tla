------------------------------ MODULE MC_Scan ------------------------------
(* Lattice instance of Scan: headings are quarter turns; the reference      *)
(* point is kept as (sum of rotated points, number of points).              *)
EXTENDS Scan, Integers, TLC, Json, IOUtils, SequencesExt
VARIABLE hist
LRot(t, p) == CASE t = 0 -> p [] t = 1 -> <<-p[2], p[1]>> [] t = 2 -> <<-p[1], -p[2]>> [] t = 3 -> <<p[2], -p[1]>>
LRef(po, ps) == LET S == FoldLeft(LAMBDA a, p : <<a[1] + LRot(po[3], p)[1], a[2] + LRot(po[3], p)[2]>>, <<0, 0>>, ps)
                IN <<po, S, Len(ps)>>
LPose0 == <<0, 0, 0>>
Poses == { <<0, 0, 0>>, <<1, 0, 1>>, <<2, 1, 2>>, <<-1, 0, 3>> }
PtsSets == { <<>>, <<<<1, 0>>>>, <<<<1, 2>>, <<-3, 1>>>> }
MCInit == Init /\ hist = 0
MCNext == /\ hist' = hist + 1 /\ hist < 6
          /\ \/ \E p \in Poses : SetPose(p)
             \/ \E q \in PtsSets : SetPoints(q)
             \/ Query
(* Every history over this alphabet is replayed on the real code.           *)
Alphabet == {"p0", "p1", "s0", "s1", "s2", "q"}
GenLen == atoi(IOEnv.GENLEN)
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq([1..GenLen -> Alphabet]))
=============================================================================
