-------------------------------- MODULE Coeffs --------------------------------
(* Transform blocks and their coefficients (AV1 5.11.34-5.11.39): which transform *)
(* blocks a block has and in which order, what each one's prediction may look at,  *)
(* its transform type, its scan, its coefficients and the contexts they leave.     *)
EXTENDS Tile

Sqr(t) == Log2(MinI(TW(t), TH(t))) - 2        \* 0..4: 4x4 .. 64x64
SqrUp(t) == Log2(MaxI(TW(t), TH(t))) - 2
\* coefficients are coded for at most the 32x32 lowest frequencies
CW(t) == MinI(32, TW(t))
CH(t) == MinI(32, TH(t))

------------------------------------------------------------------------------
(* Transform types: numbered as the format does *)
TxDct == 0
TxIdtx == 9
Vertical(ty) == ty \in {10, 12, 14}
Horizontal(ty) == ty \in {11, 13, 15}
Intra1 == <<9, 0, 10, 11, 3, 1, 2>>
Intra2 == <<9, 0, 3, 1, 2>>
IntraSet(I, t) == IF SqrUp(t) >= 3 THEN 0 ELSE IF I.Reduced = 1 \/ Sqr(t) = 2 THEN 2 ELSE 1
SetTypes(k) == CASE k = 0 -> {0} [] k = 1 -> {Intra1[i] : i \in 1..7} [] k = 2 -> {Intra2[i] : i \in 1..5}
\* DC V H D45 D135 D113 D157 D203 D67 SMOOTH SMOOTH_V SMOOTH_H PAETH CFL
ModeType == <<0, 1, 2, 0, 3, 1, 2, 2, 1, 3, 1, 2, 3, 0>>
FilterDir == <<0, 1, 2, 6, 0>>

------------------------------------------------------------------------------
(* Scans: positions row * CW + column, in coding order *)
ScanCells(w, h, key(_, _)) ==
  SetToSortSeq(0..(w * h - 1), LAMBDA a, b : key(a \div w, a % w) < key(b \div w, b % w))
DefaultScan(w, h) ==
  ScanCells(w, h, LAMBDA r, c :
    64 * (r + c) + (IF w < h \/ (w = h /\ (r + c) % 2 = 1) THEN r ELSE c))
RowScan(w, h) == [i \in 1..(w * h) |-> i - 1]
ColScan(w, h) == [i \in 1..(w * h) |-> ((i - 1) % h) * w + (i - 1) \div h]
Sizes == {<<4,4>>, <<8,8>>, <<16,16>>, <<32,32>>, <<4,8>>, <<8,4>>, <<8,16>>, <<16,8>>, <<16,32>>, <<32,16>>, <<4,16>>, <<16,4>>,
          <<8,32>>, <<32,8>>}
DefaultScans == [s \in Sizes |-> DefaultScan(s[1], s[2])]
ScanOf(t, ty) ==
  IF SqrUp(t) < 4 /\ Vertical(ty) THEN RowScan(CW(t), CH(t))
  ELSE IF SqrUp(t) < 4 /\ Horizontal(ty) THEN ColScan(CW(t), CH(t))
  ELSE DefaultScans[<<CW(t), CH(t)>>]

------------------------------------------------------------------------------
(* Contexts *)
Edge(I, p) == <<(I.Cols + SubX(I, p)) \div Pow2[SubX(I, p)], (I.Rows + SubY(I, p)) \div Pow2[SubY(I, p)]>>
Win(s, from, n, end) == SubSeq(s, from + 1, MinI(from + n, end))
MaxOf(s) == FoldLeft(LAMBDA a, x : MaxI(a, x), 0, s)
PlaneSize(I, b, p) == Subsampled(b, SubX(I, p), SubY(I, p))

AllZeroCtx(I, d, rec, p, t, x4, y4) ==
  LET e == Edge(I, p)
      a == Win(d.al[p + 1], x4, TW(t) \div 4, e[1])
      l == Win(d.ll[p + 1], y4, TH(t) \div 4, e[2])
      ad == Win(d.ad[p + 1], x4, TW(t) \div 4, e[1])
      ld == Win(d.ld[p + 1], y4, TH(t) \div 4, e[2])
      bs == PlaneSize(I, rec.b, p)
      top == MaxOf(a)
      left == MaxOf(l)
  IN IF p = 0 THEN
       IF BW(bs) = TW(t) /\ BH(bs) = TH(t) THEN 0
       ELSE IF top = 0 /\ left = 0 THEN 1
       ELSE IF top = 0 \/ left = 0 THEN 2 + B(MaxI(top, left) > 3)
       ELSE IF MaxI(top, left) <= 3 THEN 4
       ELSE IF MinI(top, left) <= 3 THEN 5 ELSE 6
     ELSE 7 + B(top > 0 \/ MaxOf(ad) > 0) + B(left > 0 \/ MaxOf(ld) > 0)
            + (IF BW(bs) * BH(bs) > TW(t) * TH(t) THEN 3 ELSE 0)

DcSignCtx(I, d, p, t, x4, y4) ==
  LET e == Edge(I, p)
      all == Win(d.ad[p + 1], x4, TW(t) \div 4, e[1]) \o Win(d.ld[p + 1], y4, TH(t) \div 4, e[2])
      n == Sum([i \in 1..Len(all) |-> IF all[i] = 1 THEN -1 ELSE IF all[i] = 2 THEN 1 ELSE 0])
  IN IF n = 0 THEN 0 ELSE IF n < 0 THEN 1 ELSE 2

\* magnitudes of the neighbours already decoded, each counted up to cap
Near(q, w, h, r, c, offs, cap) ==
  FoldLeft(LAMBDA a, o : IF r + o[1] < h /\ c + o[2] < w THEN a + MinI(cap, q[(r + o[1]) * w + c + o[2] + 1]) ELSE a, 0, offs)
BaseRef(ty) == IF Vertical(ty) THEN <<<<1,0>>, <<0,1>>, <<2,0>>, <<3,0>>, <<4,0>>>>
               ELSE IF Horizontal(ty) THEN <<<<1,0>>, <<0,1>>, <<0,2>>, <<0,3>>, <<0,4>>>>
               ELSE <<<<0,1>>, <<1,0>>, <<1,1>>, <<0,2>>, <<2,0>>>>
RangeRef(ty) == IF Vertical(ty) THEN <<<<0,1>>, <<1,0>>, <<2,0>>>>
                ELSE IF Horizontal(ty) THEN <<<<0,1>>, <<1,0>>, <<0,2>>>>
                ELSE <<<<0,1>>, <<1,0>>, <<1,1>>>>
\* where in the block a two-dimensional coefficient lies; tall and wide blocks have their low frequencies apart
Region(t, r, c) ==
  IF TW(t) = TH(t) THEN (IF r + c < 2 THEN 1 ELSE IF r + c < 4 THEN 6 ELSE 21)
  ELSE IF TW(t) < TH(t) THEN (IF r < 2 THEN 11 ELSE IF r + c < 4 THEN 6 ELSE 21)
  ELSE (IF c < 2 THEN 16 ELSE IF r + c < 4 THEN 6 ELSE 21)
BaseCtx(t, ty, q, pos) ==
  LET w == CW(t)
      r == pos \div w
      c == pos % w
      n == MinI(4, (Near(q, w, CH(t), r, c, BaseRef(ty), 3) + 1) \div 2)
      along == IF Vertical(ty) THEN r ELSE c
  IN IF Vertical(ty) \/ Horizontal(ty) THEN n + 26 + 5 * MinI(along, 2)
     ELSE IF pos = 0 THEN 0 ELSE n + Region(t, r, c)
EobCtx(t, k) == LET n == CW(t) * CH(t) IN IF k = 0 THEN 0 ELSE IF k <= n \div 8 THEN 1 ELSE IF k <= n \div 4 THEN 2 ELSE 3
RangeCtx(t, ty, q, pos) ==
  LET w == CW(t)
      r == pos \div w
      c == pos % w
      m == MinI(6, (Near(q, w, CH(t), r, c, RangeRef(ty), 15) + 1) \div 2)
      low == IF Vertical(ty) THEN r = 0 ELSE IF Horizontal(ty) THEN c = 0 ELSE r < 2 /\ c < 2
  IN IF pos = 0 THEN m ELSE IF low THEN m + 7 ELSE m + 14

------------------------------------------------------------------------------
(* One transform block's coefficients *)
RECURSIVE GolombLen(_, _, _)
GolombLen(I, d, n) ==
  LET x == Lit(I, d, 1)
  IN IF x.y = 1 THEN Keep(x.d, n) ELSE IF n = 20 THEN Keep(x.d, -1) ELSE GolombLen(I, x.d, n + 1)

\* the transform type: read for luma, implied for chroma
LumaType(I, d, rec, t) ==
  LET set == IntraSet(I, t)
      dir == IF rec.fi[1] = 1 THEN FilterDir[rec.fi[2] + 1] ELSE rec.y
      x == IF set = 1 THEN Rd(I, d, "IntraTxTypeSet1Cdf", Sqr(t) * 13 + dir) ELSE Rd(I, d, "IntraTxTypeSet2Cdf", Sqr(t) * 13 + dir)
  IN IF set > 0 /\ FrameQ(I, rec.seg) > 0 THEN Keep(x.d, IF set = 1 THEN Intra1[x.y + 1] ELSE Intra2[x.y + 1])
     ELSE Keep(d, TxDct)
ChromaType(I, rec, t) ==
  LET ty == ModeType[rec.uv[1] + 1] IN IF ty \in SetTypes(IntraSet(I, t)) THEN ty ELSE TxDct
TypeUsed(I, rec, t, ty) == IF rec.ll = 1 \/ SqrUp(t) > 3 THEN TxDct ELSE ty

\* [d, eob, ty, q (position + 1 -> value), free]
ReadCoeffs(I, d, rec, p, t, x4, y4) ==
  LET sc == (Sqr(t) + SqrUp(t) + 1) \div 2
      pt == B(p > 0)
      two == sc * 2 + pt
      n == CW(t) * CH(t)
      none == [i \in 1..n |-> 0]
      w4 == TW(t) \div 4
      h4 == TH(t) \div 4
      Leave(e, lev, dc) == [e EXCEPT !.al[p + 1] = SetRange(@, x4, w4, lev), !.ad[p + 1] = SetRange(@, x4, w4, dc),
                                     !.ll[p + 1] = SetRange(@, y4, h4, lev), !.ld[p + 1] = SetRange(@, y4, h4, dc)]
      az == Rd(I, d, "TxbSkipCdf", sc * 13 + AllZeroCtx(I, d, rec, p, t, x4, y4))
      tt == IF p = 0 THEN LumaType(I, az.d, rec, t) ELSE Keep(az.d, ChromaType(I, rec, t))
      ty == TypeUsed(I, rec, t, tt.y)
      scan == ScanOf(t, ty)
      k == Log2(n) - 4
      oneD == B(Vertical(ty) \/ Horizontal(ty))
      pt0 == CASE k = 0 -> Rd(I, tt.d, "EobPt16Cdf", pt * 2 + oneD)
               [] k = 1 -> Rd(I, tt.d, "EobPt32Cdf", pt * 2 + oneD)
               [] k = 2 -> Rd(I, tt.d, "EobPt64Cdf", pt * 2 + oneD)
               [] k = 3 -> Rd(I, tt.d, "EobPt128Cdf", pt * 2 + oneD)
               [] k = 4 -> Rd(I, tt.d, "EobPt256Cdf", pt * 2 + oneD)
               [] k = 5 -> Rd(I, tt.d, "EobPt512Cdf", pt)
               [] k = 6 -> Rd(I, tt.d, "EobPt1024Cdf", pt)
      g == pt0.y + 1                                  \* 1, 2, 3-4, 5-8, 9-16, ...
      ex == Rd(I, pt0.d, "EobExtraCdf", two * 9 + g - 3)
      lo == Lit(I, ex.d, g - 3)
      eob == IF g < 3 THEN Keep(pt0.d, g) ELSE Keep(lo.d, Pow2[g - 2] + 1 + ex.y * Pow2[g - 3] + lo.y)
      \* levels, from the last coefficient to the first
      Level(a, i) ==
        LET c == eob.y - i
            pos == scan[c + 1]
            b0 == IF i = 1 THEN LET x == Rd(I, a.d, "CoeffBaseEobCdf", two * 4 + EobCtx(t, c)) IN Keep(x.d, x.y + 1)
                  ELSE Rd(I, a.d, "CoeffBaseCdf", two * 42 + BaseCtx(t, ty, a.q, pos))
            row == (MinI(sc, 3) * 2 + pt) * 21 + RangeCtx(t, ty, a.q, pos)
            More(e, j) == IF e.stop THEN e
                          ELSE LET x == Rd(I, e.d, "CoeffBrCdf", row) IN [d |-> x.d, y |-> e.y + x.y, stop |-> x.y < 3]
            lv == IF b0.y < 3 THEN b0 ELSE FoldLeft(More, [d |-> b0.d, y |-> b0.y, stop |-> FALSE], <<1, 2, 3, 4>>)
        IN [d |-> lv.d, q |-> [a.q EXCEPT ![pos + 1] = lv.y]]
      lev == FoldLeft(Level, [d |-> eob.d, q |-> none], RowSeq(eob.y))
      \* signs and large values, from the first to the last
      Sign(a, i) ==
        LET pos == scan[i]
            m == a.q[pos + 1]
            s == IF i = 1 THEN Rd(I, a.d, "DcSignCdf", pt * 3 + DcSignCtx(I, d, p, t, x4, y4)) ELSE Lit(I, a.d, 1)
            ln == GolombLen(I, s.d, 1)
            rest == Lit(I, ln.d, ln.y - 1)
            v == IF m <= 14 THEN Keep(s.d, m)
                 ELSE IF ln.y < 0 THEN Keep(ln.d, m)
                 ELSE Keep(rest.d, (Pow2[ln.y - 1] + rest.y + 14) % 1048576)
        IN IF m = 0 \/ a.free THEN a
           ELSE [d |-> v.d, q |-> [a.q EXCEPT ![pos + 1] = IF s.y = 1 THEN -v.y ELSE v.y],
                 dc |-> IF pos = 0 THEN (IF s.y = 1 THEN 1 ELSE 2) ELSE a.dc,
                 sum |-> MinI(63, a.sum + v.y), free |-> m > 14 /\ ln.y < 0]
      sg == FoldLeft(Sign, [d |-> lev.d, q |-> lev.q, dc |-> 0, sum |-> 0, free |-> FALSE], RowSeq(eob.y))
  IN IF az.y = 1 THEN [d |-> Leave(az.d, 0, 0), eob |-> 0, ty |-> 0, q |-> none, free |-> FALSE]
     ELSE [d |-> Leave(sg.d, sg.sum, sg.dc), eob |-> eob.y, ty |-> ty, q |-> sg.q, free |-> sg.free]

------------------------------------------------------------------------------
(* The transform blocks of a block: 64x64 by 64x64, plane by plane, row by row; *)
(* those that start outside the frame are left out. x, y in 4x4 units of the    *)
(* plane, from the block's corner.                                              *)
TxItems(I, rec) ==
  LET cw == MaxI(1, BW(rec.b) \div 64)
      ch == MaxI(1, BH(rec.b) \div 64)
      piece == IF cw > 1 \/ ch > 1 THEN BlockOf(64, 64) ELSE rec.b
      planes == IF rec.hc = 1 THEN <<0, 1, 2>> ELSE <<0>>
      InPlane(cy, cx, p) ==
        LET t == TxFor(I, rec, p)
            ps == PlaneSize(I, piece, p)
            nx == MaxI(1, BW(ps) \div TW(t))
            ny == MaxI(1, BH(ps) \div TH(t))
            x0 == (rec.c \div Pow2[SubX(I, p)]) * 4
            y0 == (rec.r \div Pow2[SubY(I, p)]) * 4
            all == [k \in 1..(nx * ny) |->
                     [p |-> p, t |-> t, x |-> ((k - 1) % nx) * (TW(t) \div 4) + (16 * cx) \div Pow2[SubX(I, p)],
                      y |-> ((k - 1) \div nx) * (TH(t) \div 4) + (16 * cy) \div Pow2[SubY(I, p)], x0 |-> x0, y0 |-> y0]]
        IN SelectSeq(all, LAMBDA i : x0 + 4 * i.x < (4 * I.Cols) \div Pow2[SubX(I, p)] /\ y0 + 4 * i.y < (4 * I.Rows) \div Pow2[SubY(I, p)])
  IN FoldLeft(LAMBDA a, k : FoldLeft(LAMBDA b, p : b \o InPlane((k - 1) \div cw, (k - 1) % cw, p), a, planes), <<>>, RowSeq(cw * ch))

\* what one transform block does: [d, ev (observable events in order), free]
TxBlock(I, d, rec, it) ==
  LET p == it.p
      t == it.t
      sx == it.x0 + 4 * it.x
      sy == it.y0 + 4 * it.y
      mask == Sb4(I)
      \* position in the superblock, in the plane's 4x4 units
      ux == (((sx * Pow2[SubX(I, p)]) \div 4) % mask) \div Pow2[SubX(I, p)]
      uy == (((sy * Pow2[SubY(I, p)]) \div 4) % mask) \div Pow2[SubY(I, p)]
      w4 == TW(t) \div 4
      h4 == TH(t) \div 4
      Done(y, x) == d.bd[p + 1][y + 2][x + 2]
      avL == IF p = 0 THEN rec.av[2] ELSE rec.av[4]
      avU == IF p = 0 THEN rec.av[1] ELSE rec.av[3]
      pal == IF p = 0 THEN Len(rec.palY) > 0 ELSE Len(rec.palU) > 0
      mode == IF p = 0 THEN rec.y ELSE IF rec.uv[1] = 13 THEN 0 ELSE rec.uv[1]
      pred == IF pal THEN <<[k |-> "palette", a |-> <<p, sx, sy, it.x, it.y, t>>]>>
              ELSE <<[k |-> "intra", a |-> <<p, sx, sy, B(avL = 1 \/ it.x > 0), B(avU = 1 \/ it.y > 0),
                                             Done(uy - 1, ux + w4), Done(uy + h4, ux - 1), mode, Log2(TW(t)), Log2(TH(t))>>]>>
      lw == IF p = 0 THEN sx + TW(t) ELSE d.lumaW
      lh == IF p = 0 THEN sy + TH(t) ELSE d.lumaH
      cfl == IF p > 0 /\ ~pal /\ rec.uv[1] = 13 THEN <<[k |-> "cfl", a |-> <<p, sx, sy, t, d.lumaW, d.lumaH>>]>> ELSE <<>>
      co == ReadCoeffs(I, d, rec, p, t, sx \div 4, sy \div 4)
      rc == IF co.eob > 0 THEN <<[k |-> "rec", a |-> <<p, sx, sy, t, co.ty>>, q |-> co.q]>> ELSE <<>>
      e == IF rec.skip = 1 THEN d ELSE co.d
  IN [d |-> [e EXCEPT !.lumaW = lw, !.lumaH = lh,
                      !.txs = Append(@, [p |-> p, r |-> sy \div 4, c |-> sx \div 4, t |-> t]),
                      !.bd[p + 1] = [y \in 1..Len(@) |-> IF y >= uy + 2 /\ y < uy + 2 + h4 THEN SetRange(@[y], ux + 1, w4, 1) ELSE @[y]]],
      ev |-> pred \o cfl \o (IF rec.skip = 1 THEN <<>> ELSE rc),
      free |-> rec.skip = 0 /\ co.free]
=============================================================================
