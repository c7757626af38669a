SPECIFICATION Spec
CONSTANT Most = 4
CONSTRAINT Bound
INVARIANTS MatchersRight BothMatchers OnlyMapping Grows LocalizedFirst FilterWins DefaultMaps
PROPERTIES Fixed NoneLost
CHECK_DEADLOCK FALSE
