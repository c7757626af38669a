INIT Init
NEXT Next
CONSTANTS Window = "plane"
INVARIANTS BestOfWindow CentralMoment SpreadNonNegative NoMapNoMatch
CHECK_DEADLOCK FALSE
