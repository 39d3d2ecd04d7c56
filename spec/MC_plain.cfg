CONSTANTS
 Group = "plain"
 T0 = 95
 Horizon = 32
 StepMs = 500
INIT Init
NEXT NextTick
INVARIANT Contiguous
INVARIANT ExactWindow
INVARIANT FirstWait
INVARIANT Seam
INVARIANT ByTime
INVARIANT ClientServed
INVARIANT ClientRefused
INVARIANT ClientTime
PROPERTY Once
CHECK_DEADLOCK FALSE
