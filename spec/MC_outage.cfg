CONSTANTS
 Group = "outage"
 T0 = 60
 Horizon = 61
 StepMs = 1000
INIT Init
NEXT NextTick
INVARIANT Outages
INVARIANT FrozenView
CHECK_DEADLOCK FALSE
