INIT Init
NEXT Next
CONSTANTS NBins = 2  MaxMax = 3
INVARIANTS LoopIsSpec NeverStuck NumberInLimits WeightsEverywhere
CHECK_DEADLOCK FALSE
