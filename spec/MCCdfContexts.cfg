SPECIFICATION Spec
CONSTANTS
 Slots = {0, 1}
 MaxTiles = 2
 MaxAdapt = 2
 MaxFrames = 2
INVARIANTS TileIndependent Clear Left
PROPERTY DefaultsFixed
CHECK_DEADLOCK FALSE
