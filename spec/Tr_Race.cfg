INIT TInit
NEXT TNext
VIEW View
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
