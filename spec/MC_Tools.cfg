SPECIFICATION Spec
INVARIANTS AskedOnce AskedRight NothingWithoutFile EndedAnswered Done
PROPERTY Eventually
CHECK_DEADLOCK FALSE
