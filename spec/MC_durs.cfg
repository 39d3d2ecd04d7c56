CONSTANTS
 Group = "durs"
 T0 = 98
 Horizon = 110
 StepMs = 1000
INIT Init
NEXT NextTick
INVARIANT Contiguous
INVARIANT KnownEnd
INVARIANT Seam
PROPERTY Once
PROPERTY Forwards
CHECK_DEADLOCK FALSE
