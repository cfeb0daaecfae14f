INIT Init
NEXT Next
CONSTANTS
  Kinds = {"part"}
  MaxMi = 40
  LrWidths = {16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129, 143, 144, 145, 159, 160, 161, 191, 192, 193, 200, 224, 255, 256, 257, 300, 319, 320, 321, 383, 384, 385, 448, 511, 512, 513, 600, 640, 767, 768, 769, 1000}
  LrDens = {8, 9, 10, 11, 12, 13, 14, 15, 16}
INVARIANTS PartitionTiles
