------------------------------- MODULE Restore -------------------------------
(* Super-resolution (AV1 7.16) and loop restoration (7.17), sample by sample.      *)
EXTENDS Transform, Json

Tab == ndJsonDeserialize("Restore.json")[1]
Quot(x, y) == IF x < 0 THEN -((-x) \div y) ELSE x \div y

------------------------------------------------------------------------------
(* A row of dw samples, of which the decoder has lim, becomes one of uw: positions in  *)
(* 1/16384 sample, eight taps from a bank of 64 filters.                          *)
Step(dw, uw) == (dw * 16384 + uw \div 2) \div uw
Start(dw, uw) == LET err == uw * Step(dw, uw) - dw * 16384
                 IN (Quot(uw \div 2 - (uw - dw) * 8192, uw) + 128 - Quot(err, 2)) % 16384
UpRow(row, dw, uw, lim, depth) ==
  LET start == Start(dw, uw)
      step == Step(dw, uw)
  IN Made([x \in 1..uw |->
       LET at == start + (x - 1) * step - 16384
           px == at \div 16384
           taps == Tab.Up[((at % 16384) \div 256) + 1]
       IN Clip1(Round2(FoldLeft(LAMBDA s, k : s + taps[k] * row[Clip3(0, lim - 1, px + k - 4) + 1], 0, [k \in 1..8 |-> k]), 7), depth)])
UpPlane(rows, dw, uw, lim, depth) == Made([y \in 1..Len(rows) |-> UpRow(rows[y], dw, uw, lim, depth)])

------------------------------------------------------------------------------
(* Loop restoration.  Rows are handled in stripes of 64 luma rows that begin 8 rows    *)
(* above a multiple of 64: beyond the stripe, up to two rows of the frame before CDEF   *)
(* are seen, then the last of these again.                                        *)
StripeOf(y, sy) == (y * P2[sy] + 8) \div 64
StripeTop(n, sy) == (64 * n - 8) \div P2[sy]
StripeEnd(n, sy) == StripeTop(n, sy) + 64 \div P2[sy] - 1
\* sample (y, x) as seen from stripe n; deb: before CDEF, cdef: after; w, h: the plane
Source(deb, cdef, w, h, sy, n, y0, x0) ==
  LET x == Clip3(0, w - 1, x0)
      y == Clip3(0, h - 1, y0)
      top == StripeTop(n, sy)
      end == StripeEnd(n, sy)
  IN IF y < top THEN deb[MaxI(top - 2, y) + 1][x + 1]
     ELSE IF y > end THEN deb[MinI(end + 2, y) + 1][x + 1]
     ELSE cdef[y + 1][x + 1]
\* rows y0..y1 and columns -3..w+2 seen from the stripe; View[y - y0 + 1][x + 4]
View(deb, cdef, w, h, sy, n, y0, y1) ==
  Made([r \in 1..(y1 - y0 + 1) |-> Made([k \in 1..(w + 6) |-> Source(deb, cdef, w, h, sy, n, y0 + r - 1, k - 4)])])

\* One unit's part of one stripe: columns x0..x1 of the view v, of which the sample rows
\* are 4..Len(v) - 3, the first of them row y0 of the plane.
Rows(v) == Len(v) - 6
\* Wiener: symmetric seven taps that add up to 128, along the rows and then down
Taps(c) == <<c[1], c[2], c[3], 128 - 2 * (c[1] + c[2] + c[3]), c[3], c[2], c[1]>>
Dot(taps, val(_)) == taps[1] * (val(1) + val(7)) + taps[2] * (val(2) + val(6)) + taps[3] * (val(3) + val(5)) + taps[4] * val(4)
Wiener(v, x0, x1, coef, depth) ==
  LET r0 == IF depth = 12 THEN 5 ELSE 3
      r1 == IF depth = 12 THEN 9 ELSE 11
      off == P2[depth + 6 - r0]
      lim == P2[depth + 8 - r0] - 1
      ht == Taps(coef[2])
      vt == Taps(coef[1])
      mid == Made([r \in 1..Len(v) |-> Made([k \in 1..(x1 - x0 + 1) |->
               LET val(t) == v[r][x0 + k + t - 5] IN Clip3(-off, lim - off, Round2(Dot(ht, val), r0))])])
  IN Made([r \in 1..Rows(v) |-> Made([k \in 1..(x1 - x0 + 1) |->
       LET val(t) == mid[r + t - 1][k] IN Clip1(Round2(Dot(vt, val), r1), depth)])])

\* Self-guided: the boxes of radius r around columns x0 - 1..x1 + 1 and the sample rows and one more on each side;
\* each says how much of the sample itself counts and what is added for the mean
Boxes(v, x0, x1, r, eps, depth) ==
  LET n == (2 * r + 1) * (2 * r + 1)
      n2e == n * n * eps
      s1 == (1048576 + n2e \div 2) \div n2e
      share == (4096 + n \div 2) \div n
      span == Made([d \in 1..(2 * r + 1) |-> d - r - 1])
      col == Made([i \in 1..(Rows(v) + 2) |-> Made([k \in 1..Len(v[1]) |->
               FoldLeft(LAMBDA a, d : LET c == v[i + 2 + d][k] IN <<a[1] + c, a[2] + c * c>>, <<0, 0>>, span)])])
      box(i, k) ==
        LET both == FoldLeft(LAMBDA a, d : <<a[1] + col[i][k + d][1], a[2] + col[i][k + d][2]>>, <<0, 0>>, span)
            sum == both[1]
            d == Round2(sum, depth - 8)
            p == MaxI(0, Round2(both[2], 2 * (depth - 8)) * n - d * d)
            \* p * s1 rounded to a multiple of 2^20, but no more than 255
            z == IF p >= (266862592 + s1 - 1) \div s1 THEN 255 ELSE Round2(p * s1, 20)
            w == IF z = 255 THEN 256 ELSE IF z = 0 THEN 1 ELSE (z * 256 + z \div 2) \div (z + 1)
            m == (256 - w) * share
        IN <<w, m * (sum \div 4096) + Round2(m * (sum % 4096), 12)>>
  IN Made([i \in 1..(Rows(v) + 2) |-> Made([k \in 1..(x1 - x0 + 3) |-> box(i, x0 + k - 2)])])
\* filtered samples times 16.  Pass 0: only boxes of every other row count
Guided(v, x0, x1, y0, pass, r, eps, depth) ==
  LET b == Boxes(v, x0, x1, r, eps, depth)
      wide(i, k, side, mid) == <<side * (b[i][k][1] + b[i][k + 2][1]) + mid * b[i][k + 1][1], side * (b[i][k][2] + b[i][k + 2][2]) + mid * b[i][k + 1][2]>>
      add(a, c) == <<a[1] + c[1], a[2] + c[2]>>
  IN Made([i \in 1..Rows(v) |-> Made([k \in 1..(x1 - x0 + 1) |->
       LET odd == (y0 + i - 1) % 2 = 1
           acc == IF pass = 1 THEN add(wide(i + 1, k, 4, 4), add(wide(i, k, 3, 4), wide(i + 2, k, 3, 4)))
                  ELSE IF odd THEN wide(i + 1, k, 5, 6)
                  ELSE add(wide(i, k, 5, 6), wide(i + 2, k, 5, 6))
           shift == IF pass = 0 /\ odd THEN 4 ELSE 5
       IN Round2(acc[1] * v[i + 3][x0 + k - 1] + acc[2], 8 + shift - 4)])])
SelfGuided(v, x0, x1, y0, set, xqd, depth) ==
  LET par == Tab.Sgr[set + 1]
      f0 == IF par[1] = 0 THEN <<>> ELSE Guided(v, x0, x1, y0, 0, par[1], par[2], depth)
      f1 == IF par[3] = 0 THEN <<>> ELSE Guided(v, x0, x1, y0, 1, par[3], par[4], depth)
  IN Made([i \in 1..Rows(v) |-> Made([k \in 1..(x1 - x0 + 1) |->
       LET u == v[i + 3][x0 + k - 1] * 16
           a0 == IF par[1] = 0 THEN u ELSE f0[i][k]
           a1 == IF par[3] = 0 THEN u ELSE f1[i][k]
       IN Clip1(Round2(xqd[2] * u + xqd[1] * a0 + (128 - xqd[1] - xqd[2]) * a1, 11), depth)])])

\* A plane of w by h samples in units of us; unit: rows of units of [Type, Coef, Set, Xqd].
\* Units end where stripes end, so a stripe is in one row of units.
RestoreStripe(v, cdef, w, y0, us, row, depth) ==
  LET part(u) == LET x0 == (u - 1) * us
                     x1 == IF u = Len(row) THEN w - 1 ELSE u * us - 1
                     un == row[u]
                 IN IF un.Type = 1 THEN Wiener(v, x0 + 4, x1 + 4, un.Coef, depth)
                    ELSE IF un.Type = 2 THEN SelfGuided(v, x0 + 4, x1 + 4, y0, un.Set, un.Xqd, depth)
                    ELSE Made([i \in 1..Rows(v) |-> SubSeq(cdef[y0 + i], x0 + 1, x1 + 1)])
      parts == Made([u \in 1..Len(row) |-> part(u)])
  IN Made([i \in 1..Rows(v) |-> FoldLeft(LAMBDA a, p : a \o p[i], <<>>, parts)])
RestorePlane(deb, cdef, w, h, sx, sy, us, units, depth) ==
  LET across == CountUnits(us, w)
      down == CountUnits(us, h)
      one(n) == LET y0 == MaxI(0, StripeTop(n, sy))
                    y1 == MinI(h - 1, StripeEnd(n, sy))
                    v == View(deb, cdef, w, h, sy, n, y0 - 3, y1 + 3)
                IN RestoreStripe(v, cdef, w, y0, us, SubSeq(units[MinI(down - 1, (y0 + 8 \div P2[sy]) \div us) + 1], 1, across), depth)
  IN FoldLeft(LAMBDA a, n : a \o one(n - 1), <<>>, [n \in 1..(StripeOf(h - 1, sy) + 1) |-> n])
=============================================================================
