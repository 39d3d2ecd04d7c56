CONSTANTS
 Group = "modulo"
 T0 = 0
 Horizon = 250
 StepMs = 1000
INIT Init
NEXT NextTick
INVARIANT Phases
PROPERTY PhaseForward
CHECK_DEADLOCK FALSE
