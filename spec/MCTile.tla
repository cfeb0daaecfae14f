-------------------------------- MODULE MCTile --------------------------------
(* Design properties of the tile syntax that every decoder state relies on, for   *)
(* all frame sizes up to a bound: the pieces of a partitioned square cover what is *)
(* visible of it exactly once and in an order that decodes neighbours first (by    *)
(* induction the blocks of a tile tile it), the transform blocks of a block cover  *)
(* each plane exactly once, every scan and colour map order visits every sample    *)
(* once, and superblocks read every loop restoration unit exactly once.            *)
EXTENDS Coeffs
CONSTANTS Kinds, MaxMi, LrWidths, LrDens
VARIABLE x

Evens(n) == {2 * i : i \in 1..(n \div 2)}
Squares == {B8, BlockOf(16, 16), BlockOf(32, 32), BlockOf(64, 64), BlockOf(128, 128)}
PickPart(b) ==
  \E rows \in Evens(MaxMi), cols \in Evens(MaxMi), p \in 0..9, r \in {0, W4(b)}, c \in {0, W4(b)} :
    /\ ~(p \in {8, 9} /\ BW(b) \in {8, 128}) /\ ~(p \in 4..7 /\ BW(b) = 8)
    /\ r < rows /\ c < cols
    /\ p = 3 \/ (p = 1 /\ HasCols(cols, c, b)) \/ (p = 2 /\ HasRows(rows, r, b)) \/ (HasRows(rows, r, b) /\ HasCols(cols, c, b))
    /\ x' = [k |-> "part", rows |-> rows, cols |-> cols, b |-> b, p |-> p, r |-> r, c |-> c]
PickTx(b) ==
  \E t \in 0..18, rows \in {2, 6, 16, 34}, cols \in {2, 6, 16, 34}, ss \in {<<1, 1>>, <<1, 0>>, <<0, 0>>},
     r \in {0, 2, 3}, c \in {0, 2, 3}, ll \in {0, 1} :
    /\ r < rows /\ c < cols /\ SubsampledValid(b, ss[1], ss[2])
    /\ r % MinI(2, H4(b)) = 0 /\ c % MinI(2, W4(b)) = 0
    /\ (ll = 1 /\ t = 0) \/ (ll = 0 /\ t = MaxTx(b)) \/ (ll = 0 /\ t = SplitTx(MaxTx(b)))
    /\ x' = [k |-> "tx", rows |-> rows, cols |-> cols, b |-> b, t |-> t, ss |-> ss, r |-> r, c |-> c, ll |-> ll]
PickScan(ty) == \E t \in 0..18 : x' = [k |-> "scan", t |-> t, ty |-> ty]
PickWave(w) == \E h \in 1..12 : x' = [k |-> "wave", w |-> w, h |-> h]
PickLr(w) == \E den \in LrDens, u \in {32, 64, 128, 256}, sb \in {0, 1}, sx \in {0, 1} :
            /\ sx = 0 => u # 32
            /\ x' = [k |-> "lr", w |-> w, den |-> den, u |-> u, sb |-> sb, sx |-> sx]
Starts == [part |-> Squares, tx |-> 0..21, scan |-> 0..15, wave |-> 1..12, lr |-> LrWidths]
Init == \E k \in Kinds : \E i \in Starts[k] : x = [k |-> "?" \o k, i |-> i]
Next == CASE x.k = "?part" -> PickPart(x.i) [] x.k = "?tx" -> PickTx(x.i) [] x.k = "?scan" -> PickScan(x.i)
          [] x.k = "?wave" -> PickWave(x.i) [] x.k = "?lr" -> PickLr(x.i) [] OTHER -> UNCHANGED x

Cells(r, c, w, h, rows, cols) == {y \in (r..(r + h - 1)) \X (c..(c + w - 1)) : y[1] < rows /\ y[2] < cols}
PartitionTiles == x.k = "part" =>
  \E ch \in {Children(x.rows, x.cols, x.r, x.c, x.b, x.p)} :
  \E cov \in {[i \in 1..Len(ch) |-> Cells(ch[i].r, ch[i].c, W4(ch[i].b), H4(ch[i].b), x.rows, x.cols)]} :
    /\ UNION {cov[i] : i \in 1..Len(ch)} = Cells(x.r, x.c, W4(x.b), W4(x.b), x.rows, x.cols)
    /\ \A i, j \in 1..Len(ch) : i # j => cov[i] \cap cov[j] = {}
    \* what lies above and to the left inside the square has been decoded before
    /\ \A i \in 1..Len(ch) :
         /\ ch[i].r > x.r => \E j \in 1..(i - 1) : <<ch[i].r - 1, ch[i].c>> \in cov[j]
         /\ ch[i].c > x.c => \E j \in 1..(i - 1) : <<ch[i].r, ch[i].c - 1>> \in cov[j]
    /\ \A i \in 1..Len(ch) : ch[i].k = "part" <=> (x.p = 3)
    /\ \A i \in 1..Len(ch) : ch[i].r % H4(ch[i].b) = 0 /\ ch[i].c % W4(ch[i].b) = 0
\* each plane of a block, as far as it is visible, is covered once by its transform blocks
TxTiles == x.k = "tx" =>
  LET J == [Rows |-> x.rows, Cols |-> x.cols, SubX |-> x.ss[1], SubY |-> x.ss[2], Mono |-> 0]
      rec == [b |-> x.b, r |-> x.r, c |-> x.c, hc |-> B(HasChroma(J, x.r, x.c, x.b)), tx |-> x.t, ll |-> x.ll]
  IN \E its \in {TxItems(J, rec)} : \A p \in (IF rec.hc = 1 THEN 0..2 ELSE {0}) :
       \E mine \in {SelectSeq(its, LAMBDA i : i.p = p)} :
       LET y0 == x.r \div Pow2[SubY(J, p)]
           x0 == x.c \div Pow2[SubX(J, p)]
           rows == x.rows \div Pow2[SubY(J, p)]
           cols == x.cols \div Pow2[SubX(J, p)]
           ps == PlaneSize(J, x.b, p)
       IN \E cov \in {[i \in 1..Len(mine) |-> Cells(y0 + mine[i].y, x0 + mine[i].x, TW(mine[i].t) \div 4, TH(mine[i].t) \div 4, rows, cols)]} :
            /\ UNION {cov[i] : i \in 1..Len(mine)} = Cells(y0, x0, W4(ps), H4(ps), rows, cols)
            /\ \A i, j \in 1..Len(mine) : i # j => cov[i] \cap cov[j] = {}
ScansVisitAll == x.k = "scan" =>
  LET s == ScanOf(x.t, x.ty) n == CW(x.t) * CH(x.t)
  IN Len(s) = n /\ {s[i] : i \in 1..n} = 0..(n - 1) /\ s[1] = 0
WaveVisitsAll == x.k = "wave" =>
  LET s == Wave(x.w, x.h)
  IN /\ Len(s) = x.w * x.h - 1
     /\ {s[i] : i \in 1..Len(s)} = ((0..(x.h - 1)) \X (0..(x.w - 1))) \ {<<0, 0>>}
LrOnce == x.k = "lr" =>
  LET fw == (8 * x.w + x.den \div 2) \div x.den
      cols == 2 * ((fw + 7) \div 8)
      J == [Rows |-> cols, Cols |-> cols, Sb128 |-> x.sb, SubX |-> x.sx, SubY |-> x.sx, Sr |-> B(x.den # 8), SrDenom |-> x.den,
            LrSize |-> <<x.u, x.u, x.u>>, FrameH |-> fw, UpW |-> x.w]
      n == Sb4(J)
      sbs == {n * i : i \in 0..((cols - 1) \div n)}
      all(G(_)) == \A s, t \in sbs : s # t => G(s) \cap G(t) = {}
      C(s) == UnitCols(J, 1, s)
      R(s) == UnitRows(J, 1, s)
  IN /\ UNION {C(s) : s \in sbs} = 0..(CountUnits(x.u, Round2(x.w, x.sx)) - 1) /\ all(C)
     /\ UNION {R(s) : s \in sbs} = 0..(CountUnits(x.u, Round2(fw, x.sx)) - 1) /\ all(R)
=============================================================================
