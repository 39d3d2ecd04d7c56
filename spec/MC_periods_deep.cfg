CONSTANTS
 Group = "periods"
 T0 = 190
 Horizon = 220
 StepMs = 4000
INIT Init
NEXT Next
INVARIANT Tiling
INVARIANT PeriodStable
INVARIANT PeriodSeam
INVARIANT Rates
CHECK_DEADLOCK FALSE
