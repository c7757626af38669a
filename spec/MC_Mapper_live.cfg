SPECIFICATION Spec
CONSTANTS Depth = 1  Limit = 1  OptLimit = 1  Size2 = 9  Near2 = 9
  PF = FALSE  Enabled0 = TRUE  FromFile = TRUE
  Kinds = {"scan", "pose", "disable", "stop"}  ScanKinds <- FarScan  MaxScans = 3  MaxInputs = 3
  Corrs <- MCCorr1
  Runs = {"lc", "pub"}
  Slips = {}
PROPERTIES M05_Eventually M11_Answered M11_Ends M06_GoesOn M08_All
CHECK_DEADLOCK FALSE
