SPECIFICATION Spec
CONSTANTS MaxLen = 7  MaxSteps = 40  Emit = FALSE
VIEW View
INVARIANTS InBounds Honoured Front Back Complete Sane
CHECK_DEADLOCK FALSE
