INIT Init
NEXT Next
CONSTANTS MaxPoints = 5  Lat = {0, 1}
INVARIANTS Refines SpreadNonNegative
CHECK_DEADLOCK FALSE
