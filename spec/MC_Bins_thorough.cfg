INIT Init
NEXT Next
CONSTANTS Lo <- Low  Hi = 1  MaxInserts = 4
INVARIANTS Refines TreeHoldsBins
CHECK_DEADLOCK FALSE
