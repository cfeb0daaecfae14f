SPECIFICATION Spec
CONSTANTS MaxTileWidth = 256
          MaxTileArea = 65536
          MaxTileCols = 4
          MaxTileRows = 4
          MaxMi = 18
          Bytes2 = {0, 90, 165, 255}
INVARIANTS GridPartitions WidthBounded CountsCovered NotPast
