SPECIFICATION Spec
INVARIANT Cosines
INVARIANT Sines
INVARIANT Lossless
INVARIANT Weights
INVARIANT Tables
CONSTANTS
  Sizes = {2, 3, 4, 5, 6}
  Amps = {1000, 30000}
  Levels = {0, 1, 2, 5, 9, 14}
