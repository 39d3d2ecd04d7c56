SPECIFICATION Spec
CONSTANTS Maxes = {0, 1, 7, 60, 3600}  Steps = {1, 3, 8, 41, 239, 241, 7200, 14400}  Skews <- SkewWide  MaxHist = 16  Horizon = 1000000  MaxSess = 4  Emit = TRUE
INVARIANTS Served NoFree Bounded NoLimit
