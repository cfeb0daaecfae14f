------------------------------ MODULE ChromaPred ------------------------------
(* Chroma from luma and palette prediction (AV1 7.11.5, 7.11.4).               *)
EXTENDS Transform

\* Cur(y, x), Luma(y, x): samples of the plane and of luma; maxW, maxH: how far luma is decoded
CflPred(Cur(_, _), Luma(_, _), y0, x0, sz, alpha, sx, sy, maxW, maxH, bd) ==
  LET w == TxW(sz)
      h == TxH(sz)
      ly(i) == MinI((y0 + i) * P2[sy], maxH - P2[sy])
      lx(j) == MinI((x0 + j) * P2[sx], maxW - P2[sx])
      \* eight times the mean of the luma samples under a chroma sample
      over(i, j) == FoldLeft(LAMBDA a, k : a + Luma(ly(i) + (k \div 2), lx(j) + (k % 2)), 0,
                             SelectSeq(<<0, 1, 2, 3>>, LAMBDA k : (k % 2 = 1 => sx = 1) /\ (k > 1 => sy = 1)))
      L == Made([k \in 1..(w * h) |-> over((k - 1) \div w, (k - 1) % w) * P2[3 - sx - sy]])
      avg == Round2(FoldLeft(LAMBDA a, v : a + v, 0, L), Log2(w) + Log2(h))
  IN [i \in 1..h |-> [j \in 1..w |-> Clip1(Cur(y0 + i - 1, x0 + j - 1) + Round2Signed(alpha * (L[(i - 1) * w + j] - avg), 6), bd)]]

PalettePred(colors, map, by, bx, sz) ==
  [i \in 1..TxH(sz) |-> [j \in 1..TxW(sz) |-> colors[map[4 * by + i][4 * bx + j] + 1]]]
=============================================================================
