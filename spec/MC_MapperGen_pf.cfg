INIT GInit
NEXT GNext
VIEW Key
CONSTANTS Depth = 1  Limit = 1  OptLimit = 1  Size2 = 99  Near2 = 99
  PF = TRUE  Enabled0 = TRUE  FromFile = TRUE
  Kinds = {"scan", "pose"}  ScanKinds <- FarScan  MaxScans = 4  MaxInputs = 6
  Corrs <- MCCorr1
  Runs = {"lc", "pub"}
  Slips = {}
  MaxWords = 9  Tag = "genp"  Words = {"S", "s", "z", "P", "E", "D", "A", "p", "c", "k"}
INVARIANTS M01_WellFormed M01_Published M03_Frozen M04_NotLocalized M05_Snapshots M05_Shown M06_OnePair M07_WholeMap M07_Placed M08_InOrder M08_None M09_Once M11_NoDeadlock M11_NoRace
ACTION_CONSTRAINT Emit
POSTCONDITION Done
CHECK_DEADLOCK FALSE
