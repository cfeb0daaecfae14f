--------------------------------- MODULE Cdef ---------------------------------
(* The constrained directional enhancement filter (AV1 7.15): 8x8 blocks, each    *)
(* filtered along the direction found in its luma samples.                       *)
EXTENDS Transform

\* positions of the taps of each direction: <<down, right>>, the near and the far one
Directions == << <<<<-1, 1>>, <<-2, 2>>>>, <<<<0, 1>>, <<-1, 2>>>>, <<<<0, 1>>, <<0, 2>>>>, <<<<0, 1>>, <<1, 2>>>>,
                 <<<<1, 1>>, <<2, 2>>>>, <<<<1, 0>>, <<2, 1>>>>, <<<<1, 0>>, <<2, 0>>>>, <<<<1, 0>>, <<2, -1>>>> >>
\* the direction in chroma, whose samples are further apart one way in 4:2:2 and 4:4:0
ChromaDir(sx, sy, d) == IF sx = sy THEN d ELSE IF sx = 1 THEN <<7, 0, 2, 4, 5, 6, 6, 6>>[d + 1] ELSE <<1, 2, 2, 2, 3, 4, 6, 0>>[d + 1]

FloorLog(n) == CHOOSE k \in 0..30 : P2[k] <= n /\ (k = 30 \/ n < P2[k + 1])
\* which line of direction d the sample (i, j) is on
LineOf(d, i, j) == CASE d = 0 -> i + j
                     [] d = 1 -> i + j \div 2
                     [] d = 2 -> i
                     [] d = 3 -> 3 + i - j \div 2
                     [] d = 4 -> 7 + i - j
                     [] d = 5 -> 3 - i \div 2 + j
                     [] d = 6 -> j
                     [] OTHER -> i \div 2 + j
Lines == Made([d \in 1..8 |-> Made([i \in 1..8 |-> Made([j \in 1..8 |-> LineOf(d - 1, i - 1, j - 1) + 1])])])
LineCount(d) == Cardinality({LineOf(d, i, j) : i, j \in 0..7})
Members(d) == Made([l \in 1..15 |-> Cardinality({p \in (0..7) \X (0..7) : LineOf(d, p[1], p[2]) = l - 1})])
LineSize == Made([d \in 1..8 |-> Members(d - 1)])
\* how well the lines of a direction explain an 8x8 block x of 8-bit samples less 128: 840 times the sum over lines of (sum of the line)^2 / its length
Score(x, d) ==
  LET sums == FoldLeft(LAMBDA s, k : LET i == (k - 1) \div 8 + 1
                                         j == ((k - 1) % 8) + 1
                                     IN [s EXCEPT ![Lines[d + 1][i][j]] = @ + x[i][j]],
                       [l \in 1..15 |-> 0], [k \in 1..64 |-> k])
  IN FoldLeft(LAMBDA a, l : IF LineSize[d + 1][l] = 0 THEN a ELSE a + sums[l] * sums[l] * (840 \div LineSize[d + 1][l]), 0, [l \in 1..15 |-> l])
\* the first direction of the highest score, and how far it is ahead of the one across
Direction(x) == LET s == Made([d \in 1..8 |-> Score(x, d - 1)])
                    best == CHOOSE d \in 0..7 : /\ \A e \in 0..7 : s[e + 1] <= s[d + 1]
                                                /\ \A e \in 0..(d - 1) : s[e + 1] < s[d + 1]
                IN [dir |-> best, var |-> (s[best + 1] - s[((best + 4) % 8) + 1]) \div 1024]

\* differences count in full up to a threshold, beyond it less and less
Constrain(diff, thr, damping) ==
  IF thr = 0 THEN 0
  ELSE LET m == Clip3(0, Abs(diff), thr - Abs(diff) \div P2[MaxI(0, damping - FloorLog(thr))])
       IN IF diff < 0 THEN -m ELSE m

TapList == SetToSeq({<<o, k, s>> : o \in {-2, 0, 2}, k \in 1..2, s \in {-1, 1}})
\* One sample.  at(y, x): whether the frame has it; px: the plane; taps even or odd by the strength
Filtered(c, px, sx, sy, y, x, pri, sec, damping, dir) ==
  LET v == px[y + 1][x + 1]
      inside(yy, xx) == yy >= 0 /\ xx >= 0 /\ (yy * P2[sy]) \div 4 < c.MiRows /\ (xx * P2[sx]) \div 4 < c.MiCols
      odd == (pri \div P2[c.Depth - 8]) % 2
      priTap(k) == IF odd = 1 THEN 3 ELSE <<4, 2>>[k]
      secTap(k) == <<2, 1>>[k]
      \* along the direction, and 45 degrees to either side: sum of what the taps add, highest and lowest sample
      acc == FoldLeft(LAMBDA a, t : LET d == Directions[((dir + t[1] + 8) % 8) + 1][t[2]]
                                        yy == y + t[3] * d[1]
                                        xx == x + t[3] * d[2]
                                    IN IF ~inside(yy, xx) THEN a
                                       ELSE LET p == px[yy + 1][xx + 1]
                                                s == IF t[1] = 0 THEN priTap(t[2]) * Constrain(p - v, pri, damping) ELSE secTap(t[2]) * Constrain(p - v, sec, damping)
                                            IN <<a[1] + s, MaxI(a[2], p), MinI(a[3], p)>>,
                      <<0, v, v>>, TapList)
  IN Clip3(acc[3], acc[2], v + ((8 + acc[1] - B(acc[1] < 0)) \div 16))

\* strengths and direction of each 8x8 block; -1: left alone
CdefBlock(c, luma, r, k) ==
  LET idx == c.CdefIdx[r \div 16 + 1][k \div 16 + 1]
      skip == \A i, j \in 0..1 : c.Skips[r + i + 1][k + j + 1] = 1
  IN IF idx = -1 \/ skip THEN [idx |-> -1, dir |-> 0, var |-> 0]
     ELSE LET d == Direction(Made([i \in 1..8 |-> Made([j \in 1..8 |-> luma[4 * r + i][4 * k + j] \div P2[c.Depth - 8] - 128])]))
          IN [idx |-> idx, dir |-> d.dir, var |-> d.var]
CdefBlocks(c, luma) == Made([r \in 1..(c.MiRows \div 2) |-> Made([k \in 1..(c.MiCols \div 2) |-> CdefBlock(c, luma, 2 * (r - 1), 2 * (k - 1))])])
LumaStrength(str, var) == IF var = 0 THEN 0 ELSE LET a == IF var < 64 THEN 0 ELSE MinI(12, FloorLog(var \div 64)) IN (str * (4 + a) + 8) \div 16
CdefPlane(c, px, blocks, plane) ==
  LET sx == IF plane = 0 THEN 0 ELSE c.SubX
      sy == IF plane = 0 THEN 0 ELSE c.SubY
      up == P2[c.Depth - 8]
  IN Made([y \in 1..Len(px) |-> Made([x \in 1..Len(px[1]) |->
       LET b == blocks[((y - 1) * P2[sy]) \div 8 + 1][((x - 1) * P2[sx]) \div 8 + 1]
           pri0 == (IF plane = 0 THEN c.YPri ELSE c.UvPri)[b.idx + 1] * up
           pri == IF plane = 0 THEN LumaStrength(pri0, b.var) ELSE pri0
           sec == (IF plane = 0 THEN c.YSec ELSE c.UvSec)[b.idx + 1] * up
           dir == IF pri0 = 0 THEN 0 ELSE IF plane = 0 THEN b.dir ELSE ChromaDir(sx, sy, b.dir)
       IN IF b.idx = -1 THEN px[y][x] ELSE Filtered(c, px, sx, sy, y - 1, x - 1, pri, sec, c.Damping + c.Depth - 8 - B(plane > 0), dir)])])
=============================================================================
