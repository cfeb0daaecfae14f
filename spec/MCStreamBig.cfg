SPECIFICATION Spec
CONSTANTS MaxTileWidth = 4096
          MaxTileArea = 9437184
          MaxTileCols = 64
          MaxTileRows = 64
          TileLits = 4
          Length = 5
          Show = 1
INVARIANTS Nested OpenOk GroupsOk Ordered Backed SameStart Closed Emit
PROPERTIES SlotsKept ValidKept
CHECK_DEADLOCK FALSE
