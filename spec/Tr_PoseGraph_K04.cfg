INIT TInit
NEXT TNext
CONSTANT Prop = "K04"
CONSTRAINT Track
INVARIANT ProblemIsGraph
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
