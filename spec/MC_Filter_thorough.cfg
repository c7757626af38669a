INIT Init
NEXT Next
CONSTANTS NBins = 3  MaxMax = 4
INVARIANTS LoopIsSpec NeverStuck NumberInLimits WeightsEverywhere
CHECK_DEADLOCK FALSE
