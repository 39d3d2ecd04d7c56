SPECIFICATION Spec
CONSTANTS
  MaxCaps = 2
  MaxSamples = 4
  Durs = {1, 2, 3}
  Ts = 3
  Secs = {0, 1, 2}
  Frames = {0, 9, 20}
  Lens = {0, 1, 32}
INVARIANTS Once All Ordered Placed Complete
