SPECIFICATION Spec
CONSTANTS B = 3  N = 4  D = 2  Cues = 3  MaxLoop = 12
INVARIANTS WellFormed Seamless Ordered LiveTime
