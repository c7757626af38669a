INIT Init
NEXT Next
CONSTANTS MaxScans = 2  MaxCons = 1  MaxSteps = 5
INVARIANTS FileIsWhatWasSaved ResaveIsIdentity Monotone Drawn
CHECK_DEADLOCK FALSE
