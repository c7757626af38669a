INIT Init
NEXT Next
CONSTANTS Slip = 2  Reach = 1  Steps = 5  Size = 3
INVARIANTS BeliefIsTrue MapIsTrue
CHECK_DEADLOCK FALSE
