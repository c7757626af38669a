INIT TInit
NEXT TNext
CONSTANT Prop = "K03"
CONSTRAINT Track
INVARIANT ProblemIsGraph
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
