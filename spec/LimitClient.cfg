SPECIFICATION Spec
CONSTANTS Maxes = {0, 1, 3}  Steps = {1, 3, 8}  Skews <- SkewSet  MaxHist = 100  Horizon = 104  MaxSess = 1  Emit = FALSE
VIEW View
INVARIANTS Served NoFree Bounded NoLimit
