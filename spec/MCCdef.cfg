SPECIFICATION Spec
INVARIANT Bounded
INVARIANT Covered
INVARIANT Found
CONSTANTS
  Diffs = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 200, 255}
  Thrs = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15}
  Dampings = {2, 3, 4, 5, 6}
  Amps = {40, 100}
