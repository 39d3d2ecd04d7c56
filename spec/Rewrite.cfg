SPECIFICATION Spec
CONSTANTS MaxRuns = 2  MaxSize = 3  Mux = FALSE
INVARIANTS Resolved IndexExact NoStaleIndex TypeFirst EventFirst
