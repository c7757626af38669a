----------------------------- MODULE MC_Mapper ------------------------------
EXTENDS Mapper
MCCorrs == {P0, [x |-> 0, y |-> 1, t |-> 0]}
MCCorr1 == {[x |-> 0, y |-> 1, t |-> 0]}
Sk(move, e, usable) == [move |-> move, e |-> e, usable |-> usable]
FarScan == {Sk(Fwd, FALSE, TRUE)}
TwoScans == FarScan \cup {Sk([x |-> 0, y |-> 0, t |-> 1], TRUE, TRUE)}
AllScans == TwoScans \cup {Sk(P0, FALSE, TRUE), Sk(Fwd, FALSE, FALSE)}
=============================================================================
