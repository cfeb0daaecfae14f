SPECIFICATION Spec
INVARIANT Bounded
INVARIANT Covered
INVARIANT Found
CONSTANTS
  Diffs <- AllDiffs
  Thrs <- AllThrs
  Dampings = {2, 3, 4, 5, 6, 7, 8, 9, 10}
  Amps = {1, 16, 40, 100, 127}
