CONSTANTS
 Group = "periods"
 T0 = 190
 Horizon = 120
 StepMs = 10000
INIT Init
NEXT Next
INVARIANT Tiling
INVARIANT PeriodStable
INVARIANT PeriodSeam
INVARIANT Rates
CHECK_DEADLOCK FALSE
