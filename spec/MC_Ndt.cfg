INIT Init
NEXT Next
CONSTANTS Lo <- Low  Hi = 5  MaxScans = 1
INVARIANTS GridOnly Conserved
CHECK_DEADLOCK FALSE
