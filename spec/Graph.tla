------------------------------- MODULE Graph --------------------------------
(* The map: scans and the constraints between them; saving and loading;     *)
(* looking for scans close to one; drawing.  Geometry is a parameter.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Ref(_, _),        \* the reference point of a scan (2nd argument: use the centre of its points)
          Dist2(_, _),      \* squared distance between reference points
          Lt(_, _),
          Sq(_)
VARIABLES bary,   \* reference mode of the graph
          scans,  \* [id, pose, pts]
          cons,   \* [b, e, tr, info, sw]   (ends are positions in scans, from 0)
          disk    \* file name -> [scans, cons]
grvars == <<bary, scans, cons, disk>>
GInit(m) == bary = m /\ scans = <<>> /\ cons = <<>> /\ disk = <<>>
AddScan(s) == scans' = Append(scans, s) /\ UNCHANGED <<bary, cons, disk>>
AddCon(c) == cons' = Append(cons, c) /\ UNCHANGED <<bary, scans, disk>>
MoveScan(i, p) == scans' = [scans EXCEPT ![i].pose = p] /\ UNCHANGED <<bary, cons, disk>>
Save(f) == disk' = [x \in DOMAIN disk \cup {f} |-> IF x = f THEN [scans |-> scans, cons |-> cons] ELSE disk[x]]
           /\ UNCHANGED <<bary, scans, cons>>
Load(f) == f \in DOMAIN disk /\ scans' = disk[f].scans /\ cons' = disk[f].cons /\ UNCHANGED <<bary, disk>>
-----------------------------------------------------------------------------
Allowed(limit) == IF limit > 0 THEN limit ELSE Len(scans)
D2(q, i) == Dist2(Ref(q, bary), Ref(scans[i + 1], bary))
Near(q, d, limit) == {i \in 0..(Allowed(limit) - 1) : Lt(D2(q, i), Sq(d))}
(* an answer: a sequence of positions *)
NearAnswer(a, q, d, limit) ==
  /\ {a[i] : i \in 1..Len(a)} = Near(q, d, limit)
  /\ Len(a) = Cardinality(Near(q, d, limit))
  /\ \A i \in 1..(Len(a) - 1) : ~Lt(D2(q, a[i + 1]), D2(q, a[i]))
(* what is drawn: one marker per scan, one line per constraint *)
NodeMarkers == [i \in 1..Len(scans) |-> [id |-> scans[i].id, at |-> scans[i].pose]]
EdgeMarkers == [i \in 1..Len(cons) |-> [from |-> scans[cons[i].b + 1].pose, to |-> scans[cons[i].e + 1].pose, sw |-> cons[i].sw]]
=============================================================================
