SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Ds = {1, 2, 3, 5, 999, 1000, 1001, 2000, 2500, 1999, 3001, 4000, 59999, 60000}
  Rs = {1, 2, 400, 1000, 1300, 3000, 700, 999, 7000, 33, 500}
CONSTRAINT Short
INVARIANTS Expected Tiled Positive Inside
