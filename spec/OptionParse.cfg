SPECIFICATION Spec
CONSTANTS MaxParts = 4  Emit = FALSE
INVARIANTS RefusedRight ClockRight OrderFree NameRight
