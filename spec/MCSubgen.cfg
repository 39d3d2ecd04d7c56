SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Ds = {1, 2, 3, 5, 999, 1000, 1001, 2000, 2500}
  Rs = {1, 2, 400, 1000, 1300, 3000}
CONSTRAINT Short
INVARIANTS Expected Tiled Positive Inside
