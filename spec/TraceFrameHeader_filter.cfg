SPECIFICATION Spec
CONSTANTS MaxTileWidth = 4096
          MaxTileArea = 9437184
          MaxTileCols = 64
          MaxTileRows = 64
          Aspect = "filter"
INVARIANTS Conforms VisibilityOk KeyForgets SizeOk LosslessOk SegOk IntraBcOk SkipOk GmOk GrainOk GridPartitions
