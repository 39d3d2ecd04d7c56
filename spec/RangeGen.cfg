SPECIFICATION Spec
CONSTANTS MaxLen = 12  MaxSteps = 14  Emit = TRUE
INVARIANTS InBounds Honoured Front Back Complete Sane
CHECK_DEADLOCK FALSE
