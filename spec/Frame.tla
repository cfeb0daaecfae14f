-------------------------------- MODULE Frame --------------------------------
(* An intra frame from the bytes of its tiles to its picture: parsing (Coeffs),   *)
(* prediction, residual and the end of the frame, block by block.              *)
(* I is what the headers say and the tile being decoded.                       *)
EXTENDS Coeffs
P == INSTANCE IntraPred
C == INSTANCE ChromaPred
Q == INSTANCE Dequant
E == INSTANCE Finish
Made(s) == SubSeq(s, 1, Len(s))

\* the samples before decoding: blocks may reach over the edges
Margin == 64
Black(I) == Made([p \in 1..Planes(I) |->
              LET row == Made([x \in 1..((4 * I.Cols) \div Pow2[SubX(I, p - 1)] + Margin) |-> 0])
              IN Made([y \in 1..((4 * I.Rows) \div Pow2[SubY(I, p - 1)] + Margin) |-> row])])
\* the plane with the rows of a block put at column x, row y (both from 0)
Put(px, x, y, block) ==
  LET h == Len(block)
      w == Len(block[1])
  IN Made([r \in 1..Len(px) |-> IF r <= y \/ r > y + h THEN px[r]
                                ELSE SubSeq(px[r], 1, x) \o block[r - y] \o SubSeq(px[r], x + w + 1, Len(px[r]))])

------------------------------------------------------------------------------
(* Prediction.  rec: the block; a: the place of a transform block (Coeffs)       *)
LastX(I, p) == (4 * I.Cols) \div Pow2[SubX(I, p)] - 1
LastY(I, p) == (4 * I.Rows) \div Pow2[SubY(I, p)] - 1
\* is the neighbouring block predicted smoothly?  For chroma it is the block that carries the chroma of its 8x8
Smooth(d, p, r, c) == LET b == Cell(d, r, c) IN (IF p = 0 THEN b.y ELSE b.uv[1]) \in 9..11
SmoothAround(I, d, rec, p) ==
  LET sx == SubX(I, p)
      sy == SubY(I, p)
  IN B(\/ /\ rec.av[IF p = 0 THEN 1 ELSE 3] = 1
          /\ Smooth(d, p, rec.r - 1 - B(sy = 1 /\ rec.r % 2 = 1), rec.c + B(sx = 1 /\ rec.c % 2 = 0))
       \/ /\ rec.av[IF p = 0 THEN 2 ELSE 4] = 1
          /\ Smooth(d, p, rec.r + B(sy = 1 /\ rec.r % 2 = 0), rec.c - 1 - B(sx = 1 /\ rec.c % 2 = 1)))
Intra(I, d, rec, px, a) ==
  LET p == a[1]
      x == a[2]
      y == a[3]
      w == Pow2[a[9]]
      h == Pow2[a[10]]
      S(i, j) == px[i + 1][j + 1]
  IN P!Predict(a[8], IF p = 0 THEN rec.ay ELSE rec.uv[2], IF p = 0 /\ rec.fi[1] = 1 THEN rec.fi[2] ELSE -1,
               P!Above(S, y, x, w, h, a[4], a[5], a[6], LastX(I, p), I.Depth),
               P!Left(S, y, x, w, h, a[4], a[5], a[7], LastY(I, p), I.Depth),
               w, h, a[4], a[5], LastX(I, p) - x + 1, LastY(I, p) - y + 1, I.Edge, SmoothAround(I, d, rec, p), I.Depth)
Palette(rec, a) == C!PalettePred(IF a[1] = 0 THEN rec.palY ELSE IF a[1] = 1 THEN rec.palU ELSE rec.palV,
                                 IF a[1] = 0 THEN rec.mapY ELSE rec.mapUV, a[5], a[4], a[6])
FromLuma(I, rec, px, a) ==
  C!CflPred(LAMBDA i, j : px[a[1] + 1][i + 1][j + 1], LAMBDA i, j : px[1][i + 1][j + 1], a[3], a[2], a[4],
            IF a[1] = 1 THEN rec.uv[3] ELSE rec.uv[4], I.SubX, I.SubY, a[5], a[6], I.Depth)

------------------------------------------------------------------------------
(* Residual *)
QIdx(I, rec) == LET base == IF I.Dq = 1 THEN rec.q ELSE I.BaseQ
                IN IF I.Seg = 1 /\ I.Feat[rec.seg + 1][1] = 1 THEN Clip3(0, 255, base + I.FData[rec.seg + 1]) ELSE base
Weighted(I, rec, p, t, ty, v, pos) ==
  LET level == I.QmLevel[p + 1][rec.seg + 1]
  IN IF I.Qm = 1 /\ ty < 9 /\ level < 15 THEN Round2(v * Q!Weight(level, p, t, pos), 5) ELSE v
Residual(I, rec, px, a, q) ==
  LET p == a[1]
      x == a[2]
      y == a[3]
      t == a[4]
      ty == a[5]
      dc == Q!DcTab(I.Depth, QIdx(I, rec) + <<I.YDc, I.UDc, I.VDc>>[p + 1])
      ac == Q!AcTab(I.Depth, QIdx(I, rec) + <<0, I.UAc, I.VAc>>[p + 1])
      w == Q!TW(t)
      one(pos) == IF q[pos + 1] = 0 THEN 0
                  ELSE Q!Scaled(I.Depth, t, Weighted(I, rec, p, t, ty, IF pos = 0 THEN dc ELSE ac, pos), q[pos + 1])
      coefs == Made([i \in 1..Q!TH(t) |-> Made([j \in 1..w |-> one((i - 1) * w + j - 1)])])
      R == Q!Inverse2D(t, ty, rec.ll, I.Depth, coefs)
  IN Made([i \in 1..TH(t) |-> Made([j \in 1..TW(t) |-> Clip1(px[y + i][x + j] + R[i][j], I.Depth)])])

\* what one event of a transform block does to the frame
Apply(I, d, rec, px, e) ==
  LET p == e.a[1] + 1
      block == CASE e.k = "intra" -> Intra(I, d, rec, px[p], e.a)
                 [] e.k = "palette" -> Palette(rec, e.a)
                 [] e.k = "cfl" -> FromLuma(I, rec, px, e.a)
                 [] e.k = "rec" -> Residual(I, rec, px[p], e.a, e.q)
  IN [px EXCEPT ![p] = Put(@, e.a[2], e.a[3], block)]
Drawn(I, d, rec, px, evs) == FoldLeft(LAMBDA f, e : Apply(I, d, rec, f, e), px, evs)

------------------------------------------------------------------------------
(* The end of the frame: what was decoded as the filters see it *)
Visible(I, px) == Made([p \in 1..Planes(I) |-> Made([y \in 1..(LastY(I, p - 1) + 1) |-> SubSeq(px[p][y], 1, LastX(I, p - 1) + 1)])])
UnitOf(x) == CASE x.t = 1 -> [Type |-> 1, Coef |-> <<SubSeq(x.v, 1, 3), SubSeq(x.v, 4, 6)>>, Set |-> 0, Xqd |-> <<0, 0>>]
               [] x.t = 2 -> [Type |-> 2, Coef |-> <<<<0, 0, 0>>, <<0, 0, 0>>>>, Set |-> x.v[1], Xqd |-> <<x.v[2], x.v[3]>>]
               [] OTHER -> [Type |-> 0, Coef |-> <<<<0, 0, 0>>, <<0, 0, 0>>>>, Set |-> 0, Xqd |-> <<0, 0>>]
UnitGrid(I, lr, p) ==
  Made([r \in 1..CountUnits(I.LrSize[p + 1], Round2(I.FrameH, SubY(I, p))) |->
    Made([c \in 1..CountUnits(I.LrSize[p + 1], Round2(I.UpW, SubX(I, p))) |->
      UnitOf(CHOOSE x \in lr : x.p = p /\ x.r = r - 1 /\ x.c = c - 1)])])
Ended(I, d, px) ==
  [Px |-> Visible(I, px), MiRows |-> I.Rows, MiCols |-> I.Cols, W |-> I.W, UpW |-> I.UpW, H |-> I.FrameH, Super |-> I.Sr,
   Depth |-> I.Depth, SubX |-> I.SubX, SubY |-> I.SubY,
   Level |-> I.Level, Sharp |-> I.Sharp, DeltaOn |-> I.DeltaOn, RefD |-> I.RefD, ModeD |-> I.ModeD, Multi |-> I.DlfMulti,
   SegOn |-> I.Seg, FOn |-> Made([s \in 1..8 |-> SubSeq(I.Feat[s], 2, 5)]), FData |-> Made([s \in 1..8 |-> SubSeq(I.Val[s], 2, 5)]),
   Own |-> Made([r \in 1..I.Rows |-> Made([c \in 1..I.Cols |-> d.grid[r][c] - 1])]),
   Blk |-> Made([k \in 1..Len(d.blk) |-> LET b == d.blk[k]
                 IN [Size |-> b.b, Tx |-> TxFor(I, b, 0), UvTx |-> IF b.hc = 1 THEN TxFor(I, b, 1) ELSE 0, Skip |-> b.skip, Ref |-> 0,
                     Mode |-> b.y, Seg |-> b.seg, Dlf |-> b.lf]]),
   Skips |-> Made([r \in 1..I.Rows |-> Made([c \in 1..I.Cols |-> Cell(d, r - 1, c - 1).skip])]),
   CdefIdx |-> Made([r \in 1..((I.Rows + 15) \div 16) |-> Made([c \in 1..((I.Cols + 15) \div 16) |-> d.cd[<<16 * (r - 1), 16 * (c - 1)>>]])]),
   Damping |-> I.Damping, YPri |-> I.YPri, YSec |-> I.YSec, UvPri |-> I.UvPri, UvSec |-> I.UvSec,
   Types |-> I.Lr, Unit |-> I.LrSize, Units |-> Made([p \in 1..Planes(I) |-> IF I.Lr[p] = 0 THEN <<>> ELSE UnitGrid(I, d.lr, p - 1)])]
Picture(I, d, px) == E!Picture(Ended(I, d, px))
=============================================================================
