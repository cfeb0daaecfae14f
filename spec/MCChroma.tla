------------------------------- MODULE MCChroma -------------------------------
(* What ChromaPred.tla promises of chroma from luma, over small frames.            *)
EXTENDS ChromaPred
CONSTANTS Sizes, Alphas, Seeds, Shapes, Depths
VARIABLES kind, sz, ss, es, ep, ed, al
SomeAlphas == {-16, -1, 0, 1, 5, 16}
AllAlphas == -16..16
vars == <<kind, sz, ss, es, ep, ed, al>>
Init == kind = "seed" /\ sz \in Sizes /\ ss \in {<<0, 0>>, <<1, 0>>, <<1, 1>>} /\ es \in Seeds /\ ep \in Shapes /\ ed = 8 /\ al = 0
Next == kind = "seed" /\ kind' = "block" /\ UNCHANGED <<sz, ss, es, ep>> /\ ed' \in Depths /\ al' \in Alphas
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
X0 == 4
Y0 == 8
Top == P2[ed] - 1
Noise(k) == ((es * 131 + k * k * 37 + k * 11) % 251) * P2[ed - 8]
LumaAt(y, x) == CASE ep = "flat" -> (es * 63) * P2[ed - 8]
                  [] ep = "noise" -> Noise(y * 3 + x * 7)
                  [] ep = "mild" -> (100 + ((y * 5 + x * 3 + es) % 7)) * P2[ed - 8]
                  [] ep = "half" -> IF x >= 2 * X0 + es THEN Top ELSE 0
CurAt(y, x) == 100 * P2[ed - 8]
Hx == 1024
Got(luma(_, _), a, mw, mh) == CflPred(CurAt, luma, Y0, X0, sz, a, ss[1], ss[2], mw, mh, ed)
Flipped(y, x) == Top - LumaAt(y, x)
Lifted(y, x) == LumaAt(y, x) + 8
All(p, ok(_)) == \A i \in 1..TxH(sz) : \A j \in 1..TxW(sz) : ok(p[i][j])
In == kind = "block"
Cflat == 100 * P2[ed - 8]
\* as many samples as the block has, of the depth
Shaped == In => LET p == Got(LumaAt, al, Hx, Hx) IN Len(p) = TxH(sz) /\ Len(p[1]) = TxW(sz) /\ All(p, LAMBDA v : v \in 0..Top)
\* nothing is added for no factor, nor for even luma
None == (In /\ (al = 0 \/ ep = "flat")) => All(Got(LumaAt, al, Hx, Hx), LAMBDA v : v = Cflat)
\* brighter luma changes nothing: only its differences count
Differences == In => Got(Lifted, al, Hx, Hx) = Got(LumaAt, al, Hx, Hx)
\* what is added for the opposite factor is taken away instead
Opposite == (In /\ ep = "mild") => \A p \in {Got(LumaAt, al, Hx, Hx)}, q \in {Got(LumaAt, -al, Hx, Hx)} :
              \A i \in 1..TxH(sz), j \in 1..TxW(sz) : p[i][j] - Cflat = Cflat - q[i][j]
\* ... and so for the negative of luma, but for the rounding of the mean
Negative == (In /\ ep = "mild") => \A p \in {Got(LumaAt, al, Hx, Hx)}, q \in {Got(Flipped, -al, Hx, Hx)} :
              \A i \in 1..TxH(sz), j \in 1..TxW(sz) : Abs(p[i][j] - q[i][j]) <= 1
\* in all, nothing is added: the mean of the block stays, but for rounding
MeanStays == (In /\ ep = "mild") => LET p == Got(LumaAt, al, Hx, Hx)
                                        s == FoldLeft(LAMBDA a, i : a + FoldLeft(LAMBDA b, v : b + v - Cflat, 0, p[i]), 0, [i \in 1..TxH(sz) |-> i])
                                    IN Abs(s) <= TxH(sz) * TxW(sz)
\* where luma ends its last samples count again
Beyond(y, x) == IF x >= (X0 + 4) * P2[ss[1]] \/ y >= (Y0 + 4) * P2[ss[2]] THEN 0 ELSE LumaAt(y, x)
Ends == In => Got(Beyond, al, (X0 + 4) * P2[ss[1]], (Y0 + 4) * P2[ss[2]]) = Got(LumaAt, al, (X0 + 4) * P2[ss[1]], (Y0 + 4) * P2[ss[2]])
\* a larger factor makes the differences larger
Larger == (In /\ ep = "mild") => \A p \in {Got(LumaAt, al, Hx, Hx)}, q \in {Got(LumaAt, 2 * al, Hx, Hx)} :
            \A i \in 1..TxH(sz), j \in 1..TxW(sz) : Abs(p[i][j] - Cflat) <= Abs(q[i][j] - Cflat)
\* palettes: every sample is the colour its place names
Colors == [k \in 1..8 |-> 10 * k + es]
Map == [y \in 1..80 |-> [x \in 1..80 |-> (y * 3 + x * 5 + es) % 8]]
Named == In => LET p == PalettePred(Colors, Map, 1, 2, sz) IN \A i \in 1..TxH(sz), j \in 1..TxW(sz) : p[i][j] = 10 * (Map[i + 4][j + 8] + 1) + es
=============================================================================
