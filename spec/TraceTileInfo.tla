---------------------------- MODULE TraceTileInfo ----------------------------
EXTENDS TileInfo, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci
vars == <<data, pos, ph, h, sb128, ci>>
Got == Cases[ci].out
Init == /\ ci \in 1..Len(Cases)
        /\ data = Cases[ci].in.Data /\ pos = Cases[ci].in.Skip /\ ph = "tile"
        /\ sb128 = Cases[ci].in.SB128
        /\ h = [MiCols |-> Cases[ci].in.MiCols, MiRows |-> Cases[ci].in.MiRows]
Next == /\ UNCHANGED ci
        /\ \/ ~Over(data, pos) /\ TileNext
           \/ (ph = "tile_done" \/ Over(data, pos)) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Prefix(s, n) == IF Len(s) < n THEN s ELSE SubSeq(s, 1, n)
Conforms ==
  IF Over(data, pos) THEN Got.st # "ok"
  ELSE ph = "tile_done" =>
       /\ Got.st = "ok" /\ Got.p = pos
       /\ Got.TileCols = h.TileCols /\ Got.TileRows = h.TileRows
       /\ Got.ColsLog2 = h.ColsLog2 /\ Got.RowsLog2 = h.RowsLog2
       /\ Prefix(Got.ColStarts, h.TileCols + 1) = h.ColStarts
       /\ Prefix(Got.RowStarts, h.TileRows + 1) = h.RowStarts
       /\ Got.CtxTile = h.CtxTile
       /\ (h.ColsLog2 + h.RowsLog2 > 0 => Got.TileSizeBytes = h.TileSizeBytes)
=============================================================================
