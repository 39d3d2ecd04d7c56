SPECIFICATION Spec
CONSTANTS
  MaxCaps = 3
  MaxSamples = 4
  Durs = {1, 2, 3}
  Ts = 3
  Secs = {1}
  Frames = {0, 9, 10, 20}
  Lens = {0, 62, 63}
INVARIANTS Once All Ordered Placed Complete
