SPECIFICATION Spec
CONSTANTS MaxTileWidth = 256
          MaxTileArea = 65536
          MaxTileCols = 4
          MaxTileRows = 4
          MaxMi = 10
          Bytes2 = {0, 165}
INVARIANTS GridPartitions WidthBounded CountsCovered NotPast
