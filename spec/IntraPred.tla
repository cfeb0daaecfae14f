------------------------------ MODULE IntraPred ------------------------------
(* Intra prediction (AV1 7.11.2): from the samples around a block and a mode to   *)
(* the block's prediction.  An edge is a sequence of the positions -2, -1, 0, ... *)
EXTENDS Arith

Made(s) == SubSeq(s, 1, Len(s))
At(e, i) == e[i + 3]

\* modes
DC == 0  VPRED == 1  HPRED == 2  SMOOTH == 9  SMOOTHV == 10  SMOOTHH == 11  PAETH == 12
Directional(m) == m \in 1..8
Angle == <<90, 180, 45, 135, 113, 157, 203, 67>>

SmW4 == <<255, 149, 85, 64>>
SmW8 == <<255, 197, 146, 105, 73, 50, 37, 32>>
SmW16 == <<255, 225, 196, 170, 145, 123, 102, 84, 68, 54, 43, 33, 26, 20, 17, 16>>
SmW32 == <<255, 240, 225, 210, 196, 182, 169, 157, 145, 133, 122, 111, 101, 92, 83, 74,
           66, 59, 52, 45, 39, 34, 29, 25, 21, 17, 14, 12, 10, 9, 8, 8>>
SmW64 == <<255, 248, 240, 233, 225, 218, 210, 203, 196, 189, 182, 176, 169, 163, 156, 150, 144, 138, 133, 127, 121, 116,
           111, 106, 101, 96, 91, 86, 82, 77, 73, 69, 65, 61, 57, 54, 50, 47, 44, 41, 38, 35, 32, 29, 27, 25, 22, 20, 18, 16, 15,
           13, 12, 10, 9, 8, 7, 6, 6, 5, 5, 4, 4, 4>>
SmW(n) == CASE n = 4 -> SmW4 [] n = 8 -> SmW8 [] n = 16 -> SmW16 [] n = 32 -> SmW32 [] n = 64 -> SmW64

\* 64 / tan of the angle, for the angles that occur
DrAngles == <<3, 6, 9, 14, 17, 20, 23, 26, 29, 32, 36, 39, 42, 45, 48, 51, 54, 58, 61, 64, 67, 70, 73, 76, 81, 84, 87>>
DrValues == <<1023, 547, 372, 273, 215, 178, 151, 132, 116, 102, 90, 80, 71, 64, 57, 51, 45, 40, 35, 31, 27, 23, 19, 15, 11, 7, 3>>
Dr(a) == DrValues[CHOOSE i \in 1..27 : DrAngles[i] = a]

Taps == <<
  <<<<-6, 10, 0, 0, 0, 12, 0>>, <<-5, 2, 10, 0, 0, 9, 0>>, <<-3, 1, 1, 10, 0, 7, 0>>, <<-3, 1, 1, 2, 10, 5, 0>>,
    <<-4, 6, 0, 0, 0, 2, 12>>, <<-3, 2, 6, 0, 0, 2, 9>>, <<-3, 2, 2, 6, 0, 2, 7>>, <<-3, 1, 2, 2, 6, 3, 5>>>>,
  <<<<-10, 16, 0, 0, 0, 10, 0>>, <<-6, 0, 16, 0, 0, 6, 0>>, <<-4, 0, 0, 16, 0, 4, 0>>, <<-2, 0, 0, 0, 16, 2, 0>>,
    <<-10, 16, 0, 0, 0, 0, 10>>, <<-6, 0, 16, 0, 0, 0, 6>>, <<-4, 0, 0, 16, 0, 0, 4>>, <<-2, 0, 0, 0, 16, 0, 2>>>>,
  <<<<-8, 8, 0, 0, 0, 16, 0>>, <<-8, 0, 8, 0, 0, 16, 0>>, <<-8, 0, 0, 8, 0, 16, 0>>, <<-8, 0, 0, 0, 8, 16, 0>>,
    <<-4, 4, 0, 0, 0, 0, 16>>, <<-4, 0, 4, 0, 0, 0, 16>>, <<-4, 0, 0, 4, 0, 0, 16>>, <<-4, 0, 0, 0, 4, 0, 16>>>>,
  <<<<-2, 8, 0, 0, 0, 10, 0>>, <<-1, 3, 8, 0, 0, 6, 0>>, <<-1, 2, 3, 8, 0, 4, 0>>, <<0, 1, 2, 3, 8, 2, 0>>,
    <<-1, 4, 0, 0, 0, 3, 10>>, <<-1, 3, 4, 0, 0, 4, 6>>, <<-1, 2, 3, 4, 0, 4, 4>>, <<-1, 2, 2, 3, 4, 3, 3>>>>,
  <<<<-12, 14, 0, 0, 0, 14, 0>>, <<-10, 0, 14, 0, 0, 12, 0>>, <<-9, 0, 0, 14, 0, 11, 0>>, <<-8, 0, 0, 0, 14, 10, 0>>,
    <<-10, 12, 0, 0, 0, 0, 14>>, <<-9, 1, 12, 0, 0, 0, 12>>, <<-8, 0, 0, 12, 0, 1, 11>>, <<-7, 0, 0, 1, 12, 1, 9>>>>>>

------------------------------------------------------------------------------
(* The edges.  S(y, x) is the sample of the frame at that place; (y, x) the block's *)
(* first sample; lastX, lastY the last column and row of the plane that count.     *)
Corner(S(_, _), y, x, hl, ha, bd) == CASE ha = 1 /\ hl = 1 -> S(y - 1, x - 1)
                                       [] ha = 1 /\ hl = 0 -> S(y - 1, x)
                                       [] ha = 0 /\ hl = 1 -> S(y, x - 1)
                                       [] OTHER -> P2[bd - 1]
Above(S(_, _), y, x, w, h, hl, ha, har, lastX, bd) ==
  LET end == MinI(lastX, x + (IF har = 1 THEN 2 * w ELSE w) - 1)
      v(i) == CASE ha = 1 -> S(y - 1, MinI(end, x + i))
                [] ha = 0 /\ hl = 1 -> S(y, x - 1)
                [] OTHER -> P2[bd - 1] - 1
      corner == Corner(S, y, x, hl, ha, bd)
  IN Made([k \in 1..(w + h + 2) |-> IF k = 1 THEN 0 ELSE IF k = 2 THEN corner ELSE v(k - 3)])
Left(S(_, _), y, x, w, h, hl, ha, hbl, lastY, bd) ==
  LET end == MinI(lastY, y + (IF hbl = 1 THEN 2 * h ELSE h) - 1)
      v(i) == CASE hl = 1 -> S(MinI(end, y + i), x - 1)
                [] hl = 0 /\ ha = 1 -> S(y - 1, x)
                [] OTHER -> P2[bd - 1] + 1
      corner == Corner(S, y, x, hl, ha, bd)
  IN Made([k \in 1..(w + h + 2) |-> IF k = 1 THEN 0 ELSE IF k = 2 THEN corner ELSE v(k - 3)])

SumOf(e, n) == FoldLeft(LAMBDA a, i : a + At(e, i - 1), 0, [i \in 1..n |-> i])

------------------------------------------------------------------------------
(* Predictions are sequences of rows *)
Rows(w, h, f(_, _)) == [i \in 1..h |-> [j \in 1..w |-> f(i - 1, j - 1)]]

DcPred(A, L, w, h, hl, ha, bd) ==
  LET v == CASE hl = 1 /\ ha = 1 -> (SumOf(A, w) + SumOf(L, h) + (w + h) \div 2) \div (w + h)
             [] hl = 1 /\ ha = 0 -> (SumOf(L, h) + h \div 2) \div h
             [] hl = 0 /\ ha = 1 -> (SumOf(A, w) + w \div 2) \div w
             [] OTHER -> P2[bd - 1]
  IN [i \in 1..h |-> [j \in 1..w |-> v]]
PaethPred(A, L, w, h) ==
  Rows(w, h, LAMBDA i, j :
    LET c == At(A, -1)
        base == At(A, j) + At(L, i) - c
        dl == Abs(base - At(L, i))
        da == Abs(base - At(A, j))
        dc == Abs(base - c)
    IN IF dl <= da /\ dl <= dc THEN At(L, i) ELSE IF da <= dc THEN At(A, j) ELSE c)
SmoothPred(m, A, L, w, h) ==
  LET wx == SmW(w)
      wy == SmW(h)
      vert(i, j) == wy[i + 1] * At(A, j) + (256 - wy[i + 1]) * At(L, h - 1)
      hor(i, j) == wx[j + 1] * At(L, i) + (256 - wx[j + 1]) * At(A, w - 1)
  IN Rows(w, h, LAMBDA i, j : CASE m = SMOOTH -> Round2(vert(i, j) + hor(i, j), 9)
                                [] m = SMOOTHV -> Round2(vert(i, j), 8)
                                [] m = SMOOTHH -> Round2(hor(i, j), 8))

\* 4x2 units in raster order, each from the seven samples above and to the left of it
FilterPred(fm, A, L, w, h, bd) ==
  LET z == Made([k \in 1..(w * h) |-> 0])
      unit(p, u) ==
        LET i2 == 2 * ((u - 1) \div (w \div 4))
            j4 == 4 * ((u - 1) % (w \div 4))
            near(k) == IF k < 5 THEN (IF i2 = 0 THEN At(A, j4 + k - 1)
                                      ELSE IF j4 = 0 /\ k = 0 THEN At(L, i2 - 1) ELSE p[(i2 - 1) * w + j4 + k])
                       ELSE (IF j4 = 0 THEN At(L, i2 + k - 5) ELSE p[(i2 + k - 5) * w + j4])
            n == Made([k \in 1..7 |-> near(k - 1)])
            val(q) == LET t == Taps[fm + 1][q]
                      IN Clip1(Round2Signed(t[1] * n[1] + t[2] * n[2] + t[3] * n[3] + t[4] * n[4] + t[5] * n[5] + t[6] * n[6] + t[7] * n[7], 4), bd)
        IN FoldLeft(LAMBDA r, q : [r EXCEPT ![(i2 + (q - 1) \div 4) * w + j4 + ((q - 1) % 4) + 1] = val(q)], p, [q \in 1..8 |-> q])
      done == FoldLeft(unit, z, [u \in 1..((w \div 4) * (h \div 2)) |-> u])
  IN Rows(w, h, LAMBDA i, j : done[i * w + j + 1])

------------------------------------------------------------------------------
(* Directional prediction: edges are smoothed and may be doubled first *)
Strength(smooth, wh, d) ==
  IF smooth = 0 THEN
    CASE wh <= 8 -> B(d >= 56)
      [] wh > 8 /\ wh <= 16 -> B(d >= 40)
      [] wh > 16 /\ wh <= 24 -> IF d >= 32 THEN 3 ELSE IF d >= 16 THEN 2 ELSE B(d >= 8)
      [] wh > 24 /\ wh <= 32 -> IF d >= 32 THEN 3 ELSE IF d >= 4 THEN 2 ELSE 1
      [] OTHER -> 3
  ELSE
    CASE wh <= 8 -> IF d >= 64 THEN 2 ELSE B(d >= 40)
      [] wh > 8 /\ wh <= 16 -> IF d >= 48 THEN 2 ELSE B(d >= 20)
      [] wh > 16 /\ wh <= 24 -> IF d >= 4 THEN 3 ELSE 0
      [] OTHER -> 3
Kernel == <<<<0, 4, 8, 4, 0>>, <<0, 5, 6, 5, 0>>, <<2, 4, 4, 4, 2>>>>
\* smooths the n samples from position -1 on, the first of them excepted
SmoothEdge(e, n, s) ==
  IF s = 0 THEN e
  ELSE LET g(i) == e[Clip3(0, n - 1, i) + 2]
           v(i) == (Kernel[s][1] * g(i - 2) + Kernel[s][2] * g(i - 1) + Kernel[s][3] * g(i) + Kernel[s][4] * g(i + 1) + Kernel[s][5] * g(i + 2) + 8) \div 16
       IN Made([k \in 1..Len(e) |-> IF k - 2 \in 1..(n - 1) THEN v(k - 2) ELSE e[k]])
Doubles(smooth, wh, d) == d > 0 /\ d < 40 /\ (IF smooth = 0 THEN wh <= 16 ELSE wh <= 8)
\* positions -2, -1, ..., 2n-2: every sample from -1 on, with one interpolated before each
DoubleEdge(e, n, bd) ==
  LET d(i) == e[Clip3(0, n, i) + 2]          \* sample i - 1, ends repeated
      mid(i) == Clip1(Round2(9 * (d(i) + d(i + 1)) - d(i - 1) - d(i + 2), 4), bd)
      v(p) == IF p % 2 = 0 THEN d(p \div 2 + 1) ELSE mid((p + 1) \div 2)
  IN Made([k \in 1..MaxI(Len(e), 2 * n + 1) |-> IF k - 3 <= 2 * n - 2 THEN v(k - 3) ELSE e[k]])

DirPred(ang, A0, L0, w, h, hl, ha, fx, fy, filter, smooth, bd) ==
  LET straight == ang \in {90, 180}
      corner == Round2(5 * At(L0, 0) + 6 * At(A0, -1) + 5 * At(A0, 0), 4)
      useCorner == filter = 1 /\ ang > 90 /\ ang < 180 /\ w + h >= 24
      A1 == IF useCorner THEN [A0 EXCEPT ![2] = corner] ELSE A0
      L1 == IF useCorner THEN [L0 EXCEPT ![2] = corner] ELSE L0
      da == Abs(ang - 90)
      dl == Abs(ang - 180)
      A2 == IF filter = 1 /\ ~straight /\ ha = 1 THEN SmoothEdge(A1, MinI(w, fx) + (IF ang < 90 THEN h ELSE 0) + 1, Strength(smooth, w + h, da)) ELSE A1
      L2 == IF filter = 1 /\ ~straight /\ hl = 1 THEN SmoothEdge(L1, MinI(h, fy) + (IF ang > 180 THEN w ELSE 0) + 1, Strength(smooth, w + h, dl)) ELSE L1
      ua == B(filter = 1 /\ Doubles(smooth, w + h, da))
      ul == B(filter = 1 /\ Doubles(smooth, w + h, dl))
      A == IF ua = 1 THEN DoubleEdge(A2, w + (IF ang < 90 THEN h ELSE 0), bd) ELSE A2
      L == IF ul = 1 THEN DoubleEdge(L2, h + (IF ang > 180 THEN w ELSE 0), bd) ELSE L2
      \* the sample 64ths of a step (doubled: 32nds) past a position
      between(e, base, idx, up) == LET s == ((idx * P2[up]) \div 2) % 32
                                   IN Round2(At(e, base) * (32 - s) + At(e, base + 1) * s, 5)
  IN CASE ang < 90 ->
            LET dx == Dr(ang)
                last == (w + h - 1) * P2[ua]
            IN Rows(w, h, LAMBDA i, j :
                 LET idx == (i + 1) * dx
                     base == idx \div P2[6 - ua] + j * P2[ua]
                 IN IF base < last THEN between(A, base, idx, ua) ELSE At(A, last))
       [] ang > 90 /\ ang < 180 ->
            LET dx == Dr(180 - ang)
                dy == Dr(ang - 90)
            IN Rows(w, h, LAMBDA i, j :
                 LET ix == 64 * j - (i + 1) * dx
                     bx == ix \div P2[6 - ua]
                     iy == 64 * i - (j + 1) * dy
                     by == iy \div P2[6 - ul]
                 IN IF bx >= -P2[ua] THEN between(A, bx, ix, ua) ELSE between(L, by, iy, ul))
       [] ang > 180 ->
            LET dy == Dr(270 - ang)
            IN Rows(w, h, LAMBDA i, j :
                 LET idx == (j + 1) * dy
                 IN between(L, idx \div P2[6 - ul] + i * P2[ul], idx, ul))
       [] ang = 90 -> Rows(w, h, LAMBDA i, j : At(A, j))
       [] ang = 180 -> Rows(w, h, LAMBDA i, j : At(L, i))

\* m: mode, ad: angle delta, fi: filter intra mode or -1, fx/fy: columns and rows from the block to the edge of the plane
Predict(m, ad, fi, A, L, w, h, hl, ha, fx, fy, filter, smooth, bd) ==
  CASE fi >= 0 -> FilterPred(fi, A, L, w, h, bd)
    [] fi < 0 /\ Directional(m) -> DirPred(Angle[m] + 3 * ad, A, L, w, h, hl, ha, fx, fy, filter, smooth, bd)
    [] fi < 0 /\ m \in {SMOOTH, SMOOTHV, SMOOTHH} -> SmoothPred(m, A, L, w, h)
    [] fi < 0 /\ m = DC -> DcPred(A, L, w, h, hl, ha, bd)
    [] fi < 0 /\ m = PAETH -> PaethPred(A, L, w, h)
=============================================================================
