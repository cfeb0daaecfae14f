SPECIFICATION Spec
INVARIANT StaysFlat
INVARIANT Remembers
CHECK_DEADLOCK FALSE
CONSTANTS
  Values = {0, 1, 77, 255}
  Sets = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  Weights0 <- Few0
  Weights1 <- More1
  Depths = {8, 12}
  Steps = 4
