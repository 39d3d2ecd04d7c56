CONSTANTS
 Group = "rel"
 T0 = 98
 Horizon = 30
 StepMs = 1000
INIT Init
NEXT NextTick
INVARIANT Pins
CHECK_DEADLOCK FALSE
