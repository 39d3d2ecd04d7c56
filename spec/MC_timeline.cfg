CONSTANTS
 Group = "timeline"
 T0 = 98
 Horizon = 15
 StepMs = 1000
INIT Init
NEXT Next
INVARIANT TimelineExact
INVARIANT TimelineServed
INVARIANT ForwardOnly
CHECK_DEADLOCK FALSE
