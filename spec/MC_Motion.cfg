INIT Init
NEXT Next
CONSTANT N = 12
INVARIANTS Exact Back SplitInverts
CHECK_DEADLOCK FALSE
