SPECIFICATION Spec
INVARIANT StaysFlat
INVARIANT Remembers
CHECK_DEADLOCK FALSE
CONSTANTS
  Values = {0, 1, 128, 255}
  Sets = {0, 9, 12, 15}
  Weights0 <- Few0
  Weights1 <- Few1
  Depths = {8}
  Steps = 3
