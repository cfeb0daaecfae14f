--------------------------------- MODULE Tile ---------------------------------
(* Decoding one tile of an intra frame: superblocks, partition, blocks' mode     *)
(* info, palettes, transform sizes, restoration units, transform blocks and      *)
(* coefficients (AV1 5.9.20-5.11), as operators on a decoder record d.           *)
(* I is the frame: dimensions in 4x4 units, tile bounds, tools in force, data.   *)
EXTENDS Symbol, Arith

RowSeq(n) == [i \in 1..n |-> i]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SetRange(s, from, n, v) == [k \in 1..Len(s) |-> IF k > from /\ k <= from + n THEN v ELSE s[k]]

------------------------------------------------------------------------------
(* Reading *)
Keep(d, v) == [d |-> d, y |-> v]
Rd(I, d, nm, row) ==
  LET x == SymRead(I.Data, d.s, d.cdf[nm][row + 1], I.NoAdapt = 0)
  IN [d |-> [d EXCEPT !.s = x.s, !.cdf[nm][row + 1] = x.cdf], y |-> x.y]
RdIf(cond, I, d, nm, row, v) == IF cond THEN Rd(I, d, nm, row) ELSE Keep(d, v)
Lit(I, d, n) == LET x == SymLit(I.Data, d.s, n) IN [d |-> [d EXCEPT !.s = x.s], y |-> x.y]
Ns(I, d, n) == LET x == SymNs(I.Data, d.s, n) IN [d |-> [d EXCEPT !.s = x.s], y |-> x.y]

SubX(I, p) == IF p > 0 THEN I.SubX ELSE 0
SubY(I, p) == IF p > 0 THEN I.SubY ELSE 0
Planes(I) == IF I.Mono = 1 THEN 1 ELSE 3
W4(b) == BW(b) \div 4
H4(b) == BH(b) \div 4
SbSize(I) == IF I.Sb128 = 1 THEN BlockOf(128, 128) ELSE BlockOf(64, 64)
Sb4(I) == IF I.Sb128 = 1 THEN 32 ELSE 16
B8 == BlockOf(8, 8)
B4 == BlockOf(4, 4)
InTile(I, r, c) == r >= I.R0 /\ r < I.R1 /\ c >= I.C0 /\ c < I.C1
Cell(d, r, c) == d.blk[d.grid[r + 1][c + 1]]
SegOn(I, seg, f) == I.Seg = 1 /\ I.Feat[seg + 1][f + 1] = 1
FrameQ(I, seg) == IF SegOn(I, seg, 0) THEN Clip3(0, 255, I.BaseQ + I.FData[seg + 1]) ELSE I.BaseQ

------------------------------------------------------------------------------
(* Partition: the pieces of a square of n 4x4 units, in coding order, as         *)
(* <<row, column, block size>> offsets; SPLIT pieces are partitioned again.      *)
Pieces(p, b) ==
  LET n == W4(b)
      h == n \div 2
      q == n \div 4
      sub == Subsize(p, BW(b))
      half == Subsize(3, BW(b))
  IN CASE p = 0 -> <<<<0, 0, b>>>>
       [] p = 1 -> <<<<0, 0, sub>>, <<h, 0, sub>>>>
       [] p = 2 -> <<<<0, 0, sub>>, <<0, h, sub>>>>
       [] p = 3 -> <<<<0, 0, half>>, <<0, h, half>>, <<h, 0, half>>, <<h, h, half>>>>
       [] p = 4 -> <<<<0, 0, half>>, <<0, h, half>>, <<h, 0, sub>>>>
       [] p = 5 -> <<<<0, 0, sub>>, <<h, 0, half>>, <<h, h, half>>>>
       [] p = 6 -> <<<<0, 0, half>>, <<h, 0, half>>, <<0, h, sub>>>>
       [] p = 7 -> <<<<0, 0, sub>>, <<0, h, half>>, <<h, h, half>>>>
       [] p = 8 -> [i \in 1..4 |-> <<q * (i - 1), 0, sub>>]
       [] p = 9 -> [i \in 1..4 |-> <<0, q * (i - 1), sub>>]
\* what is coded of square b at (r, c) under partition p: pieces that start inside the frame
Children(rows, cols, r, c, b, p) ==
  LET all == [i \in 1..Len(Pieces(p, b)) |->
                [k |-> IF p = 3 THEN "part" ELSE "block", r |-> r + Pieces(p, b)[i][1], c |-> c + Pieces(p, b)[i][2],
                 b |-> Pieces(p, b)[i][3]]]
  IN SelectSeq(all, LAMBDA x : x.r < rows /\ x.c < cols)
\* the partitions possible where the square crosses the bottom or the right of the frame
HasRows(rows, r, b) == r + W4(b) \div 2 < rows
HasCols(cols, c, b) == c + W4(b) \div 2 < cols

PartName(b) == CASE BW(b) = 8 -> "PartitionW8Cdf" [] BW(b) = 16 -> "PartitionW16Cdf" [] BW(b) = 32 -> "PartitionW32Cdf"
                 [] BW(b) = 64 -> "PartitionW64Cdf" [] BW(b) = 128 -> "PartitionW128Cdf"
\* the partition symbol of square b at (r, c)
ReadPartition(I, d, r, c, b) ==
  LET above == InTile(I, r - 1, c) /\ BW(Cell(d, r - 1, c).b) < BW(b)
      left == InTile(I, r, c - 1) /\ BH(Cell(d, r, c - 1).b) < BH(b)
      ctx == 2 * B(left) + B(above)
      hr == HasRows(I.Rows, r, b)
      hc == HasCols(I.Cols, c, b)
      cdf == d.cdf[PartName(b)][ctx + 1]
      Prob(k) == IF k + 1 > Len(cdf) - 1 THEN 0 ELSE cdf[k + 1] - (IF k = 0 THEN 0 ELSE cdf[k])
      \* when only one way across is open: split, or the one partition that does not divide in that way
      Two(S) == LET x == SymRead(I.Data, d.s, <<32768 - Sum([k \in 1..Len(S) |-> Prob(S[k])]), 32768, 0>>, FALSE)
                IN [d |-> [d EXCEPT !.s = x.s], y |-> x.y]
  IN IF b < B8 THEN Keep(d, 0)
     ELSE IF hr /\ hc THEN Rd(I, d, PartName(b), ctx)
     ELSE IF hc THEN LET x == Two(<<2, 3, 4, 6, 7>> \o (IF BW(b) = 128 THEN <<>> ELSE <<9>>)) IN Keep(x.d, IF x.y = 1 THEN 3 ELSE 1)
     ELSE IF hr THEN LET x == Two(<<1, 3, 4, 5, 6>> \o (IF BW(b) = 128 THEN <<>> ELSE <<8>>)) IN Keep(x.d, IF x.y = 1 THEN 3 ELSE 2)
     ELSE Keep(d, 3)
\* a 4:2:2 chroma block narrower than 4x4 pixels' worth does not exist: such a stream does not conform
ChromaOk(I, p, b) == I.Mono = 1 \/ SubsampledValid(IF b < B8 THEN b ELSE Subsize(p, BW(b)), I.SubX, I.SubY)

HasChroma(I, r, c, b) ==
  /\ I.Mono = 0
  /\ ~(H4(b) = 1 /\ I.SubY = 1 /\ r % 2 = 0)
  /\ ~(W4(b) = 1 /\ I.SubX = 1 /\ c % 2 = 0)

------------------------------------------------------------------------------
(* Mode info *)
SegmentId(I, d, r, c, skip) ==
  LET u == InTile(I, r - 1, c)
      l == InTile(I, r, c - 1)
      pu == IF u THEN Cell(d, r - 1, c).seg ELSE -1
      pl == IF l THEN Cell(d, r, c - 1).seg ELSE -1
      pul == IF u /\ l THEN Cell(d, r - 1, c - 1).seg ELSE -1
      pred == IF pu = -1 THEN (IF pl = -1 THEN 0 ELSE pl) ELSE IF pl = -1 THEN pu ELSE IF pul = pu THEN pu ELSE pl
      ctx == IF pul < 0 THEN 0 ELSE IF pul = pu /\ pul = pl THEN 2
             ELSE IF pul = pu \/ pul = pl \/ pu = pl THEN 1 ELSE 0
      x == Rd(I, d, "SegmentIdCdf", ctx)
  IN IF I.Seg = 0 THEN Keep(d, 0)
     ELSE IF skip = 1 THEN Keep(d, pred)
     ELSE Keep(x.d, Clip3(0, I.LastSeg, IF x.y > I.LastSeg /\ pred > 0 THEN
                                          (IF pred >= I.LastSeg THEN I.LastSeg - x.y
                                           ELSE IF 2 * pred < I.LastSeg + 1 THEN x.y ELSE I.LastSeg - x.y)
                                        ELSE NegDeinterleave(x.y, pred, I.LastSeg + 1)))

ReadSkip(I, d, r, c, seg) ==
  IF I.Pre = 1 /\ SegOn(I, seg, 6) THEN Keep(d, 1)
  ELSE Rd(I, d, "SkipCdf", (IF InTile(I, r - 1, c) THEN Cell(d, r - 1, c).skip ELSE 0)
                           + (IF InTile(I, r, c - 1) THEN Cell(d, r, c - 1).skip ELSE 0))

\* one cdef index for every 64x64 with a coded block, read with its first one
Unit64(r, c) == <<r - (r % 16), c - (c % 16)>>
ReadCdef(I, d, r, c, b, skip) ==
  LET u == Unit64(r, c)
      x == Lit(I, d, I.CdefBits)
      covered == {<<u[1] + 16 * i, u[2] + 16 * j>> : i \in 0..((H4(b) - 1) \div 16), j \in 0..((W4(b) - 1) \div 16)}
  IN IF skip = 1 \/ I.CodedLossless = 1 \/ I.Bc = 1 \/ I.EnableCdef = 0 \/ d.cd[u] # -1 THEN d
     ELSE [x.d EXCEPT !.cd = [v \in DOMAIN @ \cup covered |-> IF v \in covered THEN x.y ELSE @[v]]]

\* a magnitude: up to 2 as it is, from 3 on a length and that many bits; then a sign
ReadDelta(I, d, nm, row) ==
  LET a == Rd(I, d, nm, row)
      n == Lit(I, a.d, 3)
      v == Lit(I, n.d, n.y + 1)
      m == IF a.y = 3 THEN [d |-> v.d, y |-> v.y + Pow2[n.y + 1] + 1] ELSE a
      s == Lit(I, m.d, 1)
  IN IF m.y = 0 THEN m ELSE [d |-> s.d, y |-> IF s.y = 1 THEN -m.y ELSE m.y]

ReadDeltas(I, d, b, skip) ==
  LET go == d.rd = 1 /\ ~(b = SbSize(I) /\ skip = 1)
      q == ReadDelta(I, d, "DeltaQCdf", 0)
      d1 == IF q.y = 0 THEN q.d ELSE [q.d EXCEPT !.q = Clip3(1, 255, @ + q.y * Pow2[I.DqRes])]
      n == IF I.DlfMulti = 0 THEN 1 ELSE IF Planes(I) > 1 THEN 4 ELSE 2
      One(e, i) == LET x == IF I.DlfMulti = 0 THEN ReadDelta(I, e, "DeltaLFCdf", 0) ELSE ReadDelta(I, e, "DeltaLFMultiCdf", i - 1)
                   IN IF x.y = 0 THEN x.d ELSE [x.d EXCEPT !.lf[i] = Clip3(-63, 63, @ + x.y * Pow2[I.DlfRes])]
      d2 == IF I.Dlf = 1 THEN FoldLeft(One, d1, RowSeq(n)) ELSE d1
  IN [(IF go THEN d2 ELSE d) EXCEPT !.rd = 0]

IntraCtx == <<0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0>>
Directional(m) == m \in 1..8
ReadAngle(I, d, b, m) == LET x == Rd(I, d, "AngleDeltaCdf", m - 1)
                         IN IF b >= B8 /\ Directional(m) THEN [d |-> x.d, y |-> x.y - 3] ELSE Keep(d, 0)

ReadCfl(I, d) ==
  LET s == Rd(I, d, "CflSignCdf", 0)
      su == (s.y + 1) \div 3
      sv == (s.y + 1) % 3
      Signed(sg, v) == IF sg = 1 THEN -(v + 1) ELSE v + 1
      u == Rd(I, s.d, "CflAlphaCdf", (su - 1) * 3 + sv)
      d1 == IF su = 0 THEN s.d ELSE u.d
      v == Rd(I, d1, "CflAlphaCdf", (sv - 1) * 3 + su)
      d2 == IF sv = 0 THEN d1 ELSE v.d
  IN [d |-> d2, y |-> <<IF su = 0 THEN 0 ELSE Signed(su, u.y), IF sv = 0 THEN 0 ELSE Signed(sv, v.y)>>]

CflAllowed(I, b, lossless) ==
  IF lossless = 1 THEN Subsampled(b, I.SubX, I.SubY) = B4 ELSE MaxI(BW(b), BH(b)) <= 32

\* uv_mode, CfL alphas, chroma angle
ReadUv(I, d, b, y, lossless) ==
  LET m == IF CflAllowed(I, b, lossless) THEN Rd(I, d, "UVModeCflAllowedCdf", y) ELSE Rd(I, d, "UVModeCflNotAllowedCdf", y)
      a == IF m.y = 13 THEN ReadCfl(I, m.d) ELSE Keep(m.d, <<0, 0>>)
      g == ReadAngle(I, a.d, b, m.y)
  IN [d |-> g.d, y |-> <<m.y, g.y, a.y[1], a.y[2]>>]

------------------------------------------------------------------------------
(* Palettes *)
\* colours of the neighbours, ascending, each once; nothing from above across a 64 row boundary
PaletteCache(I, d, r, c, f) ==
  LET u == IF (r * 4) % 64 # 0 /\ InTile(I, r - 1, c) THEN Cell(d, r - 1, c)[f] ELSE <<>>
      l == IF InTile(I, r, c - 1) THEN Cell(d, r, c - 1)[f] ELSE <<>>
  IN SetToSortSeq({u[i] : i \in 1..Len(u)} \cup {l[i] : i \in 1..Len(l)}, LAMBDA a, b : a < b)
BitsFor(x) == IF x < 2 THEN 0 ELSE CeilLog2(x)
\* n colours: some of the cache, one literal, the others as differences of at least min
ReadColors(I, d, cache, n, min) ==
  LET Use(a, col) == IF Len(a.y) = n THEN a
                     ELSE LET x == Lit(I, a.d, 1) IN [d |-> x.d, y |-> IF x.y = 1 THEN Append(a.y, col) ELSE a.y]
      c0 == FoldLeft(Use, [d |-> d, y |-> <<>>], cache)
      f == Lit(I, c0.d, I.Depth)
      c1 == IF Len(c0.y) = n THEN c0 ELSE [d |-> f.d, y |-> Append(c0.y, f.y)]
      e == Lit(I, c1.d, 2)
      More(a, i) == LET x == Lit(I, a.d, a.bits)
                        v == Clip1(a.y[Len(a.y)] + x.y + min, I.Depth)
                    IN [d |-> x.d, y |-> Append(a.y, v), bits |-> MinI(a.bits, BitsFor(Pow2[I.Depth] - v - min))]
      c2 == IF Len(c1.y) = n THEN c1
            ELSE FoldLeft(More, [d |-> e.d, y |-> c1.y, bits |-> I.Depth - 3 + e.y], RowSeq(n - Len(c1.y)))
  IN [d |-> c2.d, y |-> SortSeq(c2.y, LAMBDA a, b : a < b)]
ReadColorsV(I, d, n) ==
  LET t == Lit(I, d, 1)
      e == Lit(I, t.d, 2)
      f == Lit(I, e.d, I.Depth)
      max == Pow2[I.Depth]
      bits == I.Depth - 4 + e.y
      Delta(a, i) == LET x == Lit(I, a.d, bits)
                         s == Lit(I, x.d, 1)
                         v == a.y[Len(a.y)] + (IF x.y # 0 /\ s.y = 1 THEN -x.y ELSE x.y)
                     IN [d |-> IF x.y = 0 THEN x.d ELSE s.d,
                         y |-> Append(a.y, Clip1(IF v < 0 THEN v + max ELSE IF v >= max THEN v - max ELSE v, I.Depth))]
      Plain(a, i) == LET x == Lit(I, a.d, I.Depth) IN [d |-> x.d, y |-> Append(a.y, x.y)]
  IN IF t.y = 1 THEN FoldLeft(Delta, [d |-> f.d, y |-> <<f.y>>], RowSeq(n - 1))
     ELSE FoldLeft(Plain, [d |-> t.d, y |-> <<>>], RowSeq(n))
ReadPalettes(I, d, r, c, b, y, hc, uv) ==
  LET on == I.Sct = 1 /\ b >= B8 /\ BW(b) <= 64 /\ BH(b) <= 64
      bctx == Log2(W4(b)) + Log2(H4(b)) - 2
      ctx == B(InTile(I, r - 1, c) /\ Len(Cell(d, r - 1, c).palY) > 0) + B(InTile(I, r, c - 1) /\ Len(Cell(d, r, c - 1).palY) > 0)
      hasY == RdIf(on /\ y = 0, I, d, "PaletteYModeCdf", bctx * 3 + ctx, 0)
      nY == Rd(I, hasY.d, "PaletteYSizeCdf", bctx)
      pY == IF hasY.y = 1 THEN ReadColors(I, nY.d, PaletteCache(I, d, r, c, "palY"), nY.y + 2, 1) ELSE Keep(hasY.d, <<>>)
      hasU == RdIf(on /\ hc /\ uv = 0, I, pY.d, "PaletteUVModeCdf", B(Len(pY.y) > 0), 0)
      nU == Rd(I, hasU.d, "PaletteUVSizeCdf", bctx)
      pU == IF hasU.y = 1 THEN ReadColors(I, nU.d, PaletteCache(I, d, r, c, "palU"), nU.y + 2, 0) ELSE Keep(hasU.d, <<>>)
      pV == IF hasU.y = 1 THEN ReadColorsV(I, pU.d, nU.y + 2) ELSE Keep(pU.d, <<>>)
  IN [d |-> pV.d, y |-> <<pY.y, pU.y, pV.y>>]

\* colours by how much the left (2), above left (1) and above (2) samples speak for them, then by number
ColorRank(m, r, c, n) ==
  LET nb == (IF c > 0 THEN <<<<m[r + 1][c], 2>>>> ELSE <<>>)
            \o (IF r > 0 /\ c > 0 THEN <<<<m[r][c], 1>>>> ELSE <<>>)
            \o (IF r > 0 THEN <<<<m[r][c + 1], 2>>>> ELSE <<>>)
      score == [k \in 0..7 |-> Sum([i \in 1..Len(nb) |-> IF nb[i][1] = k THEN nb[i][2] ELSE 0])]
      order == SortSeq(<<0, 1, 2, 3, 4, 5, 6, 7>>, LAMBDA a, b : score[a] > score[b] \/ (score[a] = score[b] /\ a < b))
      hash == score[order[1]] + 2 * score[order[2]] + 2 * score[order[3]]
  IN [order |-> order, ctx |-> CASE hash = 2 -> 0 [] hash = 5 -> 4 [] hash = 6 -> 3 [] hash = 7 -> 2 [] hash = 8 -> 1]
\* the samples diagonal by diagonal, each from top right to bottom left
Wave(w, h) == FoldLeft(LAMBDA a, i : a \o LET lo == MaxI(0, i - h + 1)
                                              hi == MinI(i, w - 1)
                                          IN [k \in 1..(hi - lo + 1) |-> <<i - (hi - k + 1), hi - k + 1>>],
                       <<>>, RowSeq(w + h - 2))
ReadColorMap(I, d, n, plane, w, h, onW, onH) ==
  LET nm == "PaletteSize" \o ToString(n) \o (IF plane = 0 THEN "Y" ELSE "UV") \o "ColorCdf"
      f == Ns(I, d, n)
      m0 == [i \in 1..onH |-> [j \in 1..onW |-> IF i = 1 /\ j = 1 THEN f.y ELSE 0]]
      Px(a, p) == LET k == ColorRank(a.y, p[1], p[2], n)
                      x == Rd(I, a.d, nm, k.ctx)
                  IN [d |-> x.d, y |-> [a.y EXCEPT ![p[1] + 1][p[2] + 1] = k.order[x.y + 1]]]
      all == FoldLeft(Px, [d |-> f.d, y |-> m0], Wave(onW, onH))
  IN [d |-> all.d, y |-> [i \in 1..h |-> [j \in 1..w |-> all.y[MinI(i, onH)][MinI(j, onW)]]]]
ReadMaps(I, d, r, c, b, pal) ==
  LET onW == MinI(BW(b), (I.Cols - c) * 4)
      onH == MinI(BH(b), (I.Rows - r) * 4)
      y == IF Len(pal[1]) > 0 THEN ReadColorMap(I, d, Len(pal[1]), 0, BW(b), BH(b), onW, onH) ELSE Keep(d, <<>>)
      w2 == BW(b) \div Pow2[I.SubX]
      h2 == BH(b) \div Pow2[I.SubY]
      aw == IF w2 < 4 THEN 2 ELSE 0
      ah == IF h2 < 4 THEN 2 ELSE 0
      u == IF Len(pal[2]) > 0
           THEN ReadColorMap(I, y.d, Len(pal[2]), 1, w2 + aw, h2 + ah, onW \div Pow2[I.SubX] + aw, onH \div Pow2[I.SubY] + ah)
           ELSE Keep(y.d, <<>>)
  IN [d |-> u.d, y |-> <<y.y, u.y>>]

------------------------------------------------------------------------------
(* Transform sizes: numbers 0..18 *)
TxDims == <<<<4,4>>, <<8,8>>, <<16,16>>, <<32,32>>, <<64,64>>, <<4,8>>, <<8,4>>, <<8,16>>, <<16,8>>, <<16,32>>, <<32,16>>,
            <<32,64>>, <<64,32>>, <<4,16>>, <<16,4>>, <<8,32>>, <<32,8>>, <<16,64>>, <<64,16>>>>
TW(t) == TxDims[t + 1][1]
TH(t) == TxDims[t + 1][2]
TxOf(w, h) == CHOOSE t \in 0..18 : TW(t) = w /\ TH(t) = h
MaxTx(b) == TxOf(MinI(64, BW(b)), MinI(64, BH(b)))
SplitTx(t) == IF TW(t) = TH(t) THEN (IF TW(t) = 4 THEN t ELSE TxOf(TW(t) \div 2, TH(t) \div 2))
              ELSE IF TW(t) > TH(t) THEN TxOf(TW(t) \div 2, TH(t)) ELSE TxOf(TW(t), TH(t) \div 2)
\* tx_depth: how often the largest transform is split
ReadTx(I, d, r, c, b, lossless) ==
  LET t == MaxTx(b)
      up == InTile(I, r - 1, c) /\ TW(Cell(d, r - 1, c).tx) >= TW(t)
      left == InTile(I, r, c - 1) /\ TH(Cell(d, r, c - 1).tx) >= TH(t)
      long == MaxI(TW(t), TH(t))
      nm == CASE long = 64 -> "Tx64x64Cdf" [] long = 32 -> "Tx32x32Cdf" [] long = 16 -> "Tx16x16Cdf" [] OTHER -> "Tx8x8Cdf"
      x == Rd(I, d, nm, B(up) + B(left))
  IN IF lossless = 1 THEN Keep(d, 0)
     ELSE IF b > B4 /\ I.TxMode = 2 THEN Keep(x.d, FoldLeft(LAMBDA a, i : SplitTx(a), t, RowSeq(x.y)))
     ELSE Keep(d, t)
TxFor(I, B0, plane) ==
  LET cb == Subsampled(B0.b, I.SubX, I.SubY)
  IN IF B0.ll = 1 THEN 0 ELSE IF plane = 0 THEN B0.tx
     ELSE TxOf(MinI(32, MinI(64, BW(cb))), MinI(32, MinI(64, BH(cb))))

------------------------------------------------------------------------------
(* One block, up to its residual: the decoder after it and the block's record *)
Block(I, d, r, c, b) ==
  LET hc == HasChroma(I, r, c, b)
      u == InTile(I, r - 1, c)
      l == InTile(I, r, c - 1)
      s0 == IF I.Pre = 1 THEN SegmentId(I, d, r, c, 0) ELSE Keep(d, 0)
      sk == ReadSkip(I, s0.d, r, c, s0.y)
      s1 == IF I.Pre = 1 THEN Keep(sk.d, s0.y) ELSE SegmentId(I, sk.d, r, c, sk.y)
      ll == I.Lossless[s1.y + 1]
      e1 == ReadCdef(I, s1.d, r, c, b, sk.y)
      e2 == ReadDeltas(I, e1, b, sk.y)
      \* nothing is said about a block that copies another part of the frame
      bc == RdIf(I.Bc = 1, I, e2, "IntrabcCdf", 0, 0)
      ym == Rd(I, bc.d, "IntraFrameYModeCdf",
               5 * (IF u THEN IntraCtx[Cell(d, r - 1, c).y + 1] ELSE 0) + (IF l THEN IntraCtx[Cell(d, r, c - 1).y + 1] ELSE 0))
      ay == ReadAngle(I, ym.d, b, ym.y)
      uv == IF hc THEN ReadUv(I, ay.d, b, ym.y, ll) ELSE Keep(ay.d, <<0, 0, 0, 0>>)
      pal == ReadPalettes(I, uv.d, r, c, b, ym.y, hc, uv.y[1])
      fi == RdIf(I.Fi = 1 /\ ym.y = 0 /\ Len(pal.y[1]) = 0 /\ MaxI(BW(b), BH(b)) <= 32, I, pal.d, "FilterIntraCdf", b, 0)
      fm == RdIf(fi.y = 1, I, fi.d, "FilterIntraModeCdf", 0, 0)
      maps == ReadMaps(I, fm.d, r, c, b, pal.y)
      tx == ReadTx(I, maps.d, r, c, b, ll)
      e3 == tx.d
      rec == [k |-> "b", r |-> r, c |-> c, b |-> b, hc |-> B(hc),
              av |-> <<B(u), B(l),
                       B(hc /\ (IF I.SubY = 1 /\ H4(b) = 1 THEN InTile(I, r - 2, c) ELSE u)),
                       B(hc /\ (IF I.SubX = 1 /\ W4(b) = 1 THEN InTile(I, r, c - 2) ELSE l))>>,
              bc |-> bc.y, skip |-> sk.y, seg |-> s1.y, ll |-> ll, y |-> ym.y, ay |-> ay.y, uv |-> uv.y,
              fi |-> <<fi.y, fm.y>>, tx |-> tx.y, palY |-> pal.y[1], palU |-> pal.y[2], palV |-> pal.y[3],
              mapY |-> maps.y[1], mapUV |-> maps.y[2],
              q |-> e3.q, lf |-> e3.lf, cd |-> e3.cd[Unit64(r, c)]]
      n == Len(d.blk) + 1
      \* a skipped block leaves no coefficients behind
      Reset(e, p) ==
        LET sx == SubX(I, p - 1)
            sy == SubY(I, p - 1)
            x0 == c \div Pow2[sx]
            x1 == (c + W4(b) - 1) \div Pow2[sx]
            y0 == r \div Pow2[sy]
            y1 == (r + H4(b) - 1) \div Pow2[sy]
        IN [e EXCEPT !.al[p] = SetRange(@, x0, x1 - x0 + 1, 0), !.ad[p] = SetRange(@, x0, x1 - x0 + 1, 0),
                     !.ll[p] = SetRange(@, y0, y1 - y0 + 1, 0), !.ld[p] = SetRange(@, y0, y1 - y0 + 1, 0)]
      e4 == IF sk.y = 1 THEN FoldLeft(Reset, e3, IF hc THEN <<1, 2, 3>> ELSE <<1>>) ELSE e3
  IN [e4 EXCEPT !.blk = Append(@, rec),
                !.grid = [i \in 1..Len(@) |-> IF i > r /\ i <= r + H4(b) THEN SetRange(@[i], c, W4(b), n) ELSE @[i]]]

------------------------------------------------------------------------------
(* Loop restoration units *)
RECURSIVE SubexpFrom(_, _, _, _, _, _)
SubexpFrom(I, d, n, k, i, mk) ==
  LET b2 == IF i = 0 THEN k ELSE k + i - 1
      a == Pow2[b2]
      u == Ns(I, d, n - mk)
      m == Lit(I, d, 1)
      v == Lit(I, m.d, b2)
  IN IF n <= mk + 3 * a THEN Keep(u.d, u.y + mk)
     ELSE IF m.y = 1 THEN SubexpFrom(I, m.d, n, k, i + 1, mk + a)
     ELSE Keep(v.d, v.y + mk)
\* a value of low..high near ref
SignedSubexp(I, d, low, high, k, ref) ==
  LET mx == high + 1 - low
      r == ref - low
      v == SubexpFrom(I, d, mx, k, 0, 0)
  IN Keep(v.d, low + (IF 2 * r <= mx THEN InverseRecenter(r, v.y) ELSE mx - 1 - InverseRecenter(mx - 1 - r, v.y)))
WienerMin == <<-5, -23, -17>>
WienerMax == <<10, 8, 46>>
WienerMid == <<3, -7, 15>>
SgrMin == <<-96, -32>>
SgrMax == <<31, 95>>
SgrMid == <<-32, 31>>
\* which of the two filters each parameter set has
SgrHas(set, i) == IF i = 1 THEN set \notin 10..13 ELSE set \notin 14..15
LrUnit(I, d, p, ur, uc) ==
  LET t == CASE I.Lr[p + 1] = 1 -> Rd(I, d, "UseWienerCdf", 0)
             [] I.Lr[p + 1] = 2 -> LET x == Rd(I, d, "UseSgrprojCdf", 0) IN Keep(x.d, 2 * x.y)
             [] OTHER -> Rd(I, d, "RestorationTypeCdf", 0)
      Tap(a, i) ==
        LET pass == (i - 1) \div 3 + 1
            j == ((i - 1) % 3) + 1
            x == SignedSubexp(I, a, WienerMin[j], WienerMax[j], j, a.refW[p + 1][pass][j])
        IN IF p > 0 /\ j = 1 THEN a ELSE [x.d EXCEPT !.refW[p + 1][pass][j] = x.y]
      w == FoldLeft(Tap, t.d, RowSeq(6))
      Coeffs2 == [pass \in 1..2 |-> [j \in 1..3 |-> IF p > 0 /\ j = 1 THEN 0 ELSE w.refW[p + 1][pass][j]]]
      set == Lit(I, t.d, 4)
      Proj(a, i) ==
        LET x == SignedSubexp(I, a, SgrMin[i], SgrMax[i], 4, a.refS[p + 1][i])
        IN IF SgrHas(set.y, i) THEN [x.d EXCEPT !.refS[p + 1][i] = x.y]
           ELSE [a EXCEPT !.refS[p + 1][i] = IF i = 1 THEN 0 ELSE Clip3(SgrMin[2], SgrMax[2], 128 - a.refS[p + 1][1])]
      g == FoldLeft(Proj, set.d, <<1, 2>>)
      rec == [p |-> p, r |-> ur, c |-> uc, t |-> t.y]
  IN CASE t.y = 1 -> [w EXCEPT !.lr = @ \cup {rec @@ [v |-> Coeffs2[1] \o Coeffs2[2]]}]
       [] t.y = 2 -> [g EXCEPT !.lr = @ \cup {rec @@ [v |-> <<set.y>> \o g.refS[p + 1]]}]
       [] OTHER -> [t.d EXCEPT !.lr = @ \cup {rec @@ [v |-> <<>>]}]
\* the units whose top left corner lies in the superblock at (r, c)
CeilDiv(a, b) == (a + b - 1) \div b
UnitRange(from, to, num, den, count) == CeilDiv(from * num, den)..(MinI(count, CeilDiv(to * num, den)) - 1)
UnitRows(I, p, r) == UnitRange(r, r + Sb4(I), 4 \div Pow2[SubY(I, p)], I.LrSize[p + 1],
                               CountUnits(I.LrSize[p + 1], Round2(I.FrameH, SubY(I, p))))
UnitCols(I, p, c) == UnitRange(c, c + Sb4(I), (4 \div Pow2[SubX(I, p)]) * (IF I.Sr = 1 THEN I.SrDenom ELSE 1),
                               I.LrSize[p + 1] * (IF I.Sr = 1 THEN 8 ELSE 1),
                               CountUnits(I.LrSize[p + 1], Round2(I.UpW, SubX(I, p))))
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
ReadLr(I, d, r, c) ==
  FoldLeft(LAMBDA e, p : IF I.Lr[p] = 0 THEN e
                         ELSE FoldLeft(LAMBDA f, ur : FoldLeft(LAMBDA g, uc : LrUnit(I, g, p - 1, ur, uc), f, Ascending(UnitCols(I, p - 1, c))),
                                       e, Ascending(UnitRows(I, p - 1, r))),
           d, RowSeq(Planes(I)))

------------------------------------------------------------------------------
(* Superblocks *)
\* which 4x4 units around and in the superblock at (r, c) count as decoded: the row above up to the tile's right edge,
\* the column to the left down to the tile's bottom
FreshDecoded(I, r, c) ==
  [p \in 1..Planes(I) |->
     LET n == Sb4(I)
         w == (I.C1 - c) \div Pow2[SubX(I, p - 1)]
         h == (I.R1 - r) \div Pow2[SubY(I, p - 1)]
         nw == n \div Pow2[SubX(I, p - 1)]
         nh == n \div Pow2[SubY(I, p - 1)]
     IN [y \in 1..(nh + 2) |-> [x \in 1..(nw + 2) |->
          IF y - 2 = nh /\ x = 1 THEN 0 ELSE B((y = 1 /\ x - 2 < w) \/ (y > 1 /\ x = 1 /\ y - 2 < h))]]]
Superblock(I, d, r, c) ==
  LET n == Sb4(I)
      u == {<<r + 16 * i, c + 16 * j>> : i \in 0..(n \div 16 - 1), j \in 0..(n \div 16 - 1)}
      fresh == IF c # I.C0 THEN d ELSE [d EXCEPT !.ll = [p \in 1..3 |-> [i \in 1..(I.Rows + 32) |-> 0]],
                                                 !.ld = [p \in 1..3 |-> [i \in 1..(I.Rows + 32) |-> 0]]]
  IN ReadLr(I, [fresh EXCEPT !.rd = I.Dq, !.cd = [v \in DOMAIN @ \cup u |-> IF v \in u THEN -1 ELSE @[v]],
                             !.bd = FreshDecoded(I, r, c)], r, c)

TileStart(I, cdf) ==
  [s |-> SymInit(I.Data, 0, Len(I.Data)), cdf |-> cdf, q |-> I.BaseQ, lf |-> <<0, 0, 0, 0>>, rd |-> 0,
   cd |-> <<>>, lr |-> {}, blk |-> <<>>, grid |-> [r \in 1..I.Rows |-> [c \in 1..I.Cols |-> 0]],
   refW |-> [p \in 1..3 |-> <<WienerMid, WienerMid>>], refS |-> [p \in 1..3 |-> SgrMid],
   al |-> [p \in 1..3 |-> [i \in 1..(I.Cols + 32) |-> 0]], ad |-> [p \in 1..3 |-> [i \in 1..(I.Cols + 32) |-> 0]],
   ll |-> [p \in 1..3 |-> [i \in 1..(I.Rows + 32) |-> 0]], ld |-> [p \in 1..3 |-> [i \in 1..(I.Rows + 32) |-> 0]],
   bd |-> <<>>, txs |-> <<>>, lumaW |-> 0, lumaH |-> 0]
=============================================================================
