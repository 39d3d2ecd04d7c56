SPECIFICATION Spec
CONSTANTS Ticks = {1}  Reqs = {1, 2}  Kinds = {"media", "chunk", "manifest", "refuse", "fail"}  MaxFlights = 2  MaxHist = 100  MaxVer = 1  Emit = FALSE
CONSTRAINT Bound
VIEW View
INVARIANTS Function Same
