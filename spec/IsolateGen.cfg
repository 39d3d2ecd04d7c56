SPECIFICATION GenSpec
CONSTANTS Ticks = {1, 2, 7}  Reqs = {1, 2, 3, 4, 5, 6}  Kinds = {"media", "chunk", "manifest", "refuse", "fail"}  MaxFlights = 4  MaxHist = 40  MaxVer = 5  Emit = TRUE
INVARIANTS Same
