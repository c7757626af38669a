INIT TInit
NEXT TNext
CONSTANT Prop = "K02"
CONSTRAINT Track
INVARIANT ProblemIsGraph
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
