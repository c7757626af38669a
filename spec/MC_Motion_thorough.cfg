INIT Init
NEXT Next
CONSTANT N = 36
INVARIANTS Exact Back SplitInverts
CHECK_DEADLOCK FALSE
