SPECIFICATION Spec
CONSTANTS
  MaxSegs = 8
  Durs = {1, 2, 3}
  Gaps = {0, 1}
INVARIANTS Faithful Shortest Increasing
