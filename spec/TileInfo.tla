------------------------------- MODULE TileInfo -------------------------------
(* tile_info() (AV1 5.9.15) as actions on the header under construction:        *)
(* h.MiCols, h.MiRows give the frame, sb128 the superblock size.                *)
EXTENDS Bits
CONSTANTS MaxTileWidth, MaxTileArea, MaxTileCols, MaxTileRows
VARIABLES data, pos, ph, h, sb128

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
RECURSIVE TileLog2From(_, _, _)
TileLog2From(blk, target, k) == IF blk * Pow2[k] < target THEN TileLog2From(blk, target, k + 1) ELSE k
TileLog2(blk, target) == TileLog2From(blk, target, 0)

SbShift == IF sb128 = 1 THEN 5 ELSE 4
SbCols == (h.MiCols + Pow2[SbShift] - 1) \div Pow2[SbShift]
SbRows == (h.MiRows + Pow2[SbShift] - 1) \div Pow2[SbShift]
MaxTileWidthSb == MaxTileWidth \div Pow2[SbShift + 2]
MaxTileAreaSb0 == MaxTileArea \div Pow2[2 * (SbShift + 2)]
MinLog2Cols == TileLog2(MaxTileWidthSb, SbCols)
MaxLog2Cols == TileLog2(1, MinOf(SbCols, MaxTileCols))
MaxLog2Rows == TileLog2(1, MinOf(SbRows, MaxTileRows))
MinLog2Tiles == MaxOf(MinLog2Cols, TileLog2(MaxTileAreaSb0, SbRows * SbCols))

\* increment_tile_*_log2: unary up to a limit
RECURSIVE Unary(_, _, _)
Unary(p, v, lim) == IF v >= lim THEN [v |-> v, p |-> p]
                    ELSE IF Bit(data, p) = 1 THEN Unary(p + 1, v + 1, lim) ELSE [v |-> v, p |-> p + 1]

\* starts (in units of 4x4 blocks) of tiles of sz superblocks each, closed by the frame edge
Uniform(sz, n, edge) == [i \in 1..(((n + sz - 1) \div sz) + 1) |->
                           IF i = ((n + sz - 1) \div sz) + 1 THEN edge ELSE (i - 1) * sz * Pow2[SbShift]]

TileBegin ==
  /\ ph = "tile"
  /\ h' = [UniformTiles |-> Bit(data, pos), ColStarts |-> <<>>, RowStarts |-> <<>>, StartSb |-> 0, Widest |-> 0] @@ h
  /\ pos' = pos + 1
  /\ ph' = IF Bit(data, pos) = 1 THEN "tile_ucols" ELSE "tile_col"
  /\ UNCHANGED <<data, sb128>>

TileUniformCols ==
  /\ ph = "tile_ucols"
  /\ LET r == Unary(pos, MinLog2Cols, MaxLog2Cols)
         w == (SbCols + Pow2[r.v] - 1) \div Pow2[r.v]
         s == Uniform(w, SbCols, h.MiCols)
     IN /\ h' = [ColStarts |-> s, TileCols |-> Len(s) - 1, ColsLog2 |-> r.v] @@ h
        /\ pos' = r.p
  /\ ph' = "tile_urows"
  /\ UNCHANGED <<data, sb128>>

TileUniformRows ==
  /\ ph = "tile_urows"
  /\ LET r == Unary(pos, MaxOf(MinLog2Tiles - h.ColsLog2, 0), MaxLog2Rows)
         w == (SbRows + Pow2[r.v] - 1) \div Pow2[r.v]
         s == Uniform(w, SbRows, h.MiRows)
     IN /\ h' = [RowStarts |-> s, TileRows |-> Len(s) - 1, RowsLog2 |-> r.v] @@ h
        /\ pos' = r.p
  /\ ph' = "tile_ctx"
  /\ UNCHANGED <<data, sb128>>

\* one explicitly sized tile column
TileCol ==
  /\ ph = "tile_col"
  /\ LET r == NsR(data, pos, MinOf(SbCols - h.StartSb, MaxTileWidthSb))
         next == h.StartSb + r.v + 1
         starts == Append(h.ColStarts, h.StartSb * Pow2[SbShift])
     IN /\ pos' = r.p
        /\ IF next < SbCols
           THEN /\ h' = [ColStarts |-> starts, StartSb |-> next, Widest |-> MaxOf(h.Widest, r.v + 1)] @@ h
                /\ ph' = "tile_col"
           ELSE /\ h' = [ColStarts |-> Append(starts, h.MiCols), StartSb |-> 0, Widest |-> MaxOf(h.Widest, r.v + 1),
                         TileCols |-> Len(starts), ColsLog2 |-> TileLog2(1, Len(starts))] @@ h
                /\ ph' = "tile_row"
  /\ UNCHANGED <<data, sb128>>

MaxTileHeightSb ==
  LET area == IF MinLog2Tiles > 0 THEN (SbRows * SbCols) \div Pow2[MinLog2Tiles + 1] ELSE SbRows * SbCols
  IN MaxOf(area \div h.Widest, 1)
TileRow ==
  /\ ph = "tile_row"
  /\ LET r == NsR(data, pos, MinOf(SbRows - h.StartSb, MaxTileHeightSb))
         next == h.StartSb + r.v + 1
         starts == Append(h.RowStarts, h.StartSb * Pow2[SbShift])
     IN /\ pos' = r.p
        /\ IF next < SbRows
           THEN h' = [RowStarts |-> starts, StartSb |-> next] @@ h /\ ph' = "tile_row"
           ELSE /\ h' = [RowStarts |-> Append(starts, h.MiRows), TileRows |-> Len(starts),
                         RowsLog2 |-> TileLog2(1, Len(starts))] @@ h
                /\ ph' = "tile_ctx"
  /\ UNCHANGED <<data, sb128>>

TileCtx ==
  /\ ph = "tile_ctx"
  /\ LET n == h.ColsLog2 + h.RowsLog2
     IN IF n > 0
        THEN /\ h' = [CtxTile |-> F(data, pos, n), TileSizeBytes |-> F(data, pos + n, 2) + 1] @@ h
             /\ pos' = pos + n + 2
        ELSE h' = [CtxTile |-> 0, TileSizeBytes |-> 0] @@ h /\ pos' = pos
  /\ ph' = "tile_done"
  /\ UNCHANGED <<data, sb128>>

TileNext == TileBegin \/ TileUniformCols \/ TileUniformRows \/ TileCol \/ TileRow \/ TileCtx

------------------------------------------------------------------------------
(* What the grid guarantees once it is complete.                               *)
TileDone == "TileSizeBytes" \in DOMAIN h
Partitions(starts, n, edge) ==
  /\ Len(starts) = n + 1 /\ n >= 1
  /\ starts[1] = 0 /\ starts[n + 1] = edge
  /\ \A i \in 1..n : starts[i] < starts[i + 1] /\ starts[i] % Pow2[SbShift] = 0
GridPartitions == TileDone => Partitions(h.ColStarts, h.TileCols, h.MiCols)
                              /\ Partitions(h.RowStarts, h.TileRows, h.MiRows)
WidthBounded == TileDone => \A i \in 1..h.TileCols :
                   h.ColStarts[i + 1] - h.ColStarts[i] <= MaxTileWidthSb * Pow2[SbShift]
CountsCovered == TileDone => h.TileCols <= Pow2[h.ColsLog2] /\ h.TileRows <= Pow2[h.RowsLog2]
=============================================================================
