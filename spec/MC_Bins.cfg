INIT Init
NEXT Next
CONSTANTS Lo <- Low  Hi = 1  MaxInserts = 3
INVARIANTS Refines TreeHoldsBins
CHECK_DEADLOCK FALSE
