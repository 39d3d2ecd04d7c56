CONSTANTS
 Group = "restart"
 T0 = 10780
 Horizon = 50
 StepMs = 1000
INIT Init
NEXT NextTick
INVARIANT Restarts
PROPERTY RestartForward
CHECK_DEADLOCK FALSE
