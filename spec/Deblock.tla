------------------------------- MODULE Deblock -------------------------------
(* The loop filter (AV1 7.14).  A pass works on lines: rows for the edges that run   *)
(* down the frame (pass 0), then columns for those that run across it (pass 1).   *)
(* Along a line the edges are taken in order; lines do not touch each other.     *)
EXTENDS Transform

\* c: depth, sharpness, levels, deltas, segmentation, and the samples' limits
BaseIndex(plane, pass) == IF plane = 0 THEN pass ELSE plane + 1
\* the filter level of a block
Level(c, b, plane, pass) ==
  LET i == BaseIndex(plane, pass)
      delta == b.Dlf[(IF c.Multi = 1 THEN i ELSE 0) + 1]
      base == Clip3(0, 63, delta + c.Level[i + 1])
      seg == IF c.SegOn = 1 /\ c.FOn[b.Seg + 1][i + 1] = 1 THEN Clip3(0, 63, base + c.FData[b.Seg + 1][i + 1]) ELSE base
      scale == IF seg >= 32 THEN 2 ELSE 1
      \* inter modes other than the two global ones
      moving == B(b.Mode >= 100 /\ b.Mode \notin {102, 110})
  IN IF c.DeltaOn = 0 THEN seg
     ELSE Clip3(0, 63, seg + scale * (c.RefD[b.Ref + 1] + (IF b.Ref > 0 THEN c.ModeD[moving + 1] ELSE 0)))
Limit(c, lvl) == LET l == lvl \div (IF c.Sharp > 4 THEN 4 ELSE IF c.Sharp > 0 THEN 2 ELSE 1)
                 IN MaxI(1, IF c.Sharp > 0 THEN MinI(9 - c.Sharp, l) ELSE l)

------------------------------------------------------------------------------
(* Filtering one place of an edge: ln is the line, q the index (from 1) of its first  *)
(* sample past the edge, so that ln[q + k] is q_k and ln[q - 1 - k] is p_k         *)
Sc(c, v) == v * P2[c.Depth - 8]
Differs(ln, a, b, t) == Abs(ln[a] - ln[b]) > t
Length(plane, size) == IF size = 4 THEN 4 ELSE IF plane > 0 THEN 6 ELSE IF size = 8 THEN 8 ELSE 16
HighVariance(c, ln, q, thr) == Differs(ln, q - 2, q - 1, Sc(c, thr)) \/ Differs(ln, q + 1, q, Sc(c, thr))
\* every step of the inner samples within the limit, and the step over the edge too
Filters(c, ln, q, len, lim, blim) ==
  LET n == IF len = 4 THEN 1 ELSE IF len = 6 THEN 2 ELSE 3
  IN /\ \A k \in 1..n : ~Differs(ln, q - 1 - k, q - k, Sc(c, lim)) /\ ~Differs(ln, q + k, q + k - 1, Sc(c, lim))
     /\ Abs(ln[q - 1] - ln[q]) * 2 + Abs(ln[q - 2] - ln[q + 1]) \div 2 <= Sc(c, blim)
Flat(c, ln, q, from, to) == \A k \in from..to : ~Differs(ln, q - 1 - k, q - 1, Sc(c, 1)) /\ ~Differs(ln, q + k, q, Sc(c, 1))

Narrow(c, ln, q, hev) ==
  LET half == P2[c.Depth - 1]
      cl(v) == Clip3(-half, half - 1, v)
      p1 == ln[q - 2] - half
      p0 == ln[q - 1] - half
      q0 == ln[q] - half
      q1 == ln[q + 1] - half
      f == cl((IF hev THEN cl(p1 - q1) ELSE 0) + 3 * (q0 - p0))
      f1 == cl(f + 4) \div 8
      f2 == cl(f + 3) \div 8
      f3 == Round2(f1, 1)
      inner == [ln EXCEPT ![q] = cl(q0 - f1) + half, ![q - 1] = cl(p0 + f2) + half]
  IN IF hev THEN inner ELSE [inner EXCEPT ![q + 1] = cl(q1 - f3) + half, ![q - 2] = cl(p1 + f3) + half]
\* n samples on each side become means over 2n + 1 places around them, the middle ones counted twice; 2^s is the total weight
Wide(ln, q, n, twice, s) ==
  LET v(i) == FoldLeft(LAMBDA a, m : LET j == m - n - 1 IN a + ln[q + Clip3(-(n + 1), n, i + j)] * (IF Abs(j) <= twice THEN 2 ELSE 1), 0, [m \in 1..(2 * n + 1) |-> m])
  IN Made([k \in 1..Len(ln) |-> IF k - q \in -n..(n - 1) THEN Round2(v(k - q), s) ELSE ln[k]])
FilterAt(c, ln, q, plane, size, lvl) ==
  LET lim == Limit(c, lvl)
      len == Length(plane, size)
  IN IF ~Filters(c, ln, q, len, lim, 2 * (lvl + 2) + lim) THEN ln
     ELSE IF size = 4 \/ ~Flat(c, ln, q, 1, IF plane > 0 THEN 2 ELSE 3) THEN Narrow(c, ln, q, HighVariance(c, ln, q, lvl \div 16))
     ELSE IF plane > 0 THEN Wide(ln, q, 2, 1, 3)
     ELSE IF size = 8 \/ ~Flat(c, ln, q, 4, 6) THEN Wide(ln, q, 3, 0, 3)
     ELSE Wide(ln, q, 6, 1, 4)

------------------------------------------------------------------------------
(* Edges.  (r, k): row and column of a 4x4 unit of the plane; own(row, col): the block *)
Luma(c, plane, r, k) == LET sx == IF plane > 0 THEN c.SubX ELSE 0
                            sy == IF plane > 0 THEN c.SubY ELSE 0
                        IN [row |-> r * P2[sy] + sy, col |-> k * P2[sx] + sx]
BlockAt(c, plane, r, k) == LET m == Luma(c, plane, r, k) IN c.Blk[c.Own[m.row + 1][m.col + 1] + 1]
Ext(sz, pass) == IF pass = 0 THEN TxW(sz) ELSE TxH(sz)
PlaneBlock(c, b, plane) == IF plane = 0 THEN b.Size ELSE Subsampled(b.Size, c.SubX, c.SubY)
Tx(b, plane) == IF plane = 0 THEN b.Tx ELSE b.UvTx
\* [size, lvl] of the edge before the unit; lvl 0: nothing to filter
Edge(c, plane, pass, r, k) ==
  LET b == BlockAt(c, plane, r, k)
      at == 4 * (IF pass = 0 THEN k ELSE r)
      visible == /\ k * P2[IF plane > 0 THEN c.SubX ELSE 0] * 4 < c.W
                 /\ r * P2[IF plane > 0 THEN c.SubY ELSE 0] * 4 < c.H
                 /\ at > 0
  IN IF ~visible THEN [size |-> 0, lvl |-> 0]
     ELSE LET p == BlockAt(c, plane, IF pass = 1 THEN r - 1 ELSE r, IF pass = 0 THEN k - 1 ELSE k)
              txEdge == at % Ext(Tx(b, plane), pass) = 0
              pb == PlaneBlock(c, b, plane)
              blkEdge == at % (IF pass = 0 THEN BW(pb) ELSE BH(pb)) = 0
              lvl == Level(c, b, plane, pass)
              size == MinI(IF plane = 0 THEN 16 ELSE 8, MinI(Ext(Tx(b, plane), pass), Ext(Tx(p, plane), pass)))
          IN IF ~txEdge \/ ~(blkEdge \/ b.Skip = 0 \/ b.Ref <= 0) THEN [size |-> 0, lvl |-> 0]
             ELSE [size |-> size, lvl |-> IF lvl > 0 THEN lvl ELSE Level(c, p, plane, pass)]

\* one pass over a plane given as its lines
Pass(c, plane, pass, lines) ==
  LET units == Len(lines[1]) \div 4
      edges == Made([u \in 1..(Len(lines) \div 4) |-> Made([e \in 1..units |->
                 IF pass = 0 THEN Edge(c, plane, 0, u - 1, e - 1) ELSE Edge(c, plane, 1, e - 1, u - 1)])])
  IN Made([l \in 1..Len(lines) |->
       FoldLeft(LAMBDA ln, e : LET d == edges[(l - 1) \div 4 + 1][e]
                               IN IF d.lvl = 0 THEN ln ELSE FilterAt(c, ln, 4 * (e - 1) + 1, plane, d.size, d.lvl),
                lines[l], [e \in 1..units |-> e])])
Turn(lines) == Made([k \in 1..Len(lines[1]) |-> Made([l \in 1..Len(lines) |-> lines[l][k]])])
FilterPlane(c, plane, rows) ==
  IF (plane > 0 /\ c.Level[plane + 2] = 0) THEN rows
  ELSE Turn(Pass(c, plane, 1, Turn(Pass(c, plane, 0, rows))))
=============================================================================
