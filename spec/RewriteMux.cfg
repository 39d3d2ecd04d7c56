SPECIFICATION Spec
CONSTANTS MaxRuns = 2  MaxSize = 1  Mux = TRUE
INVARIANTS Resolved MuxResolved MuxCovered NoStaleIndex TypeFirst
