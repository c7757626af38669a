INIT Init
NEXT Next
CONSTANTS Window = "cube"
INVARIANTS BestOfWindow CentralMoment SpreadNonNegative NoMapNoMatch
CHECK_DEADLOCK FALSE
