INIT MCInit
NEXT MCNext
CONSTANTS Optimal <- LOptimal  MaxScans = 3  MaxCons = 2 LatLo <- LatLow LatHi = 2
INVARIANTS ProblemIsGraph FirstFixed NeverWorse FailureAtomic Incremental ZeroIfConsistent
CHECK_DEADLOCK FALSE
