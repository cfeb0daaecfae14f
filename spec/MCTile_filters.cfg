INIT Init
NEXT Next
CONSTANTS
  Kinds = {"lr"}
  MaxMi = 12
  LrWidths = {16, 17, 40, 95, 96, 97, 128, 159, 160, 161, 200, 255, 256, 257, 300}
  LrDens = {8, 9, 12, 16}
INVARIANTS LrOnce
