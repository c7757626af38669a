SPECIFICATION Spec
CONSTANT Most = 8
CONSTRAINT Bound
INVARIANTS MatchersRight BothMatchers OnlyMapping Grows LocalizedFirst FilterWins DefaultMaps
PROPERTIES Fixed NoneLost
CHECK_DEADLOCK FALSE
