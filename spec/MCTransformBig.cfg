SPECIFICATION Spec
INVARIANT Cosines
INVARIANT Sines
INVARIANT Lossless
INVARIANT Weights
INVARIANT Tables
CONSTANTS
  Sizes = {2, 3, 4, 5, 6}
  Amps = {1, 7, 1000, 4096, 30000, 500000}
  Levels = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14}
