INIT Init
NEXT Next
CONSTANTS MaxScans = 3  MaxCons = 2  MaxSteps = 6
INVARIANTS FileIsWhatWasSaved ResaveIsIdentity Monotone Drawn
CHECK_DEADLOCK FALSE
