-------------------------------- MODULE Bins --------------------------------
(* The bin counter of adaptive resampling.  Abstractly: the set of bins that *)
(* received a key since the last clear, and its size.                        *)
EXTENDS Integers, FiniteSets
CONSTANTS BinOf(_)
VARIABLES bins, count
BInit == bins = {} /\ count = 0
Insert(k) == bins' = bins \cup {BinOf(k)} /\ count' = Cardinality(bins')
Clear == bins' = {} /\ count' = 0
CountIsSize == count = Cardinality(bins)
=============================================================================
