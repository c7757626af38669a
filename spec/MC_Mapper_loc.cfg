INIT Init
NEXT Next
CONSTANTS Depth = 1  Limit = 1  OptLimit = 1  Size2 = 9  Near2 = 9
  PF = FALSE  Enabled0 = TRUE  FromFile = TRUE
  Kinds = {"scan", "pose", "disable"}  ScanKinds <- FarScan  MaxScans = 3  MaxInputs = 5
  Corrs <- MCCorr1
  Runs = {"lc"}
  Slips = {}
INVARIANTS M01_WellFormed M01_Published M03_Frozen M04_NotLocalized M05_Snapshots M05_Shown M06_OnePair M07_WholeMap M07_Placed M08_InOrder M08_None M09_Once M11_NoDeadlock M11_NoRace
PROPERTIES M10_Untouched M10_OldMapIsGone M02_OnlyThen
CHECK_DEADLOCK FALSE
