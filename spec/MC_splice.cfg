CONSTANTS
 Group = "splice"
 T0 = 58
 Horizon = 130
 StepMs = 1000
INIT Init
NEXT NextTick
INVARIANT SpliceWellTimed
INVARIANT AllSplices
INVARIANT SpliceIds
INVARIANT SpliceClock
CHECK_DEADLOCK FALSE
