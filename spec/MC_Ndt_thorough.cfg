INIT Init
NEXT Next
CONSTANTS Lo <- Low  Hi = 7  MaxScans = 2
INVARIANTS GridOnly Conserved
CHECK_DEADLOCK FALSE
