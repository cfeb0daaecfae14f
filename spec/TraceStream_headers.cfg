SPECIFICATION Spec
CONSTANTS MaxTileWidth = 4096
          MaxTileArea = 9437184
          MaxTileCols = 64
          MaxTileRows = 64
          TileLits = 4
          Aspect = "headers"
INVARIANTS Conforms Nested OpenOk GroupsOk Ordered
