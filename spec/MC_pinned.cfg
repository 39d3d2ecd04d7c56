CONSTANTS
 Group = "pinned"
 T0 = 98
 Horizon = 40
 StepMs = 1000
INIT Init
NEXT NextTick
INVARIANT StaticEnd
INVARIANT Contiguous
PROPERTY Once
CHECK_DEADLOCK FALSE
