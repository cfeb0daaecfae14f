------------------------------- MODULE MCArith -------------------------------
(* What the definitions of Arith are for, checked over small ranges: one state  *)
(* per argument pair.                                                          *)
EXTENDS Arith, FiniteSets
CONSTANT N
VARIABLES a, b
Init == a \in 0..N /\ b \in 0..N
Next == UNCHANGED <<a, b>>
\* outward counting is a bijection
NegBijection == a < 9 /\ b < a => {NegDeinterleave(d, b, a) : d \in 0..(a - 1)} = 0..(a - 1)
RecBijection == {InverseRecenter(a, v) : v \in 0..(2 * a)} = 0..(2 * a) /\ (b > 2 * a => InverseRecenter(a, b) = b)
\* the nearest multiple, ties upwards (away from zero for the signed form)
RoundNearest == \A n \in 1..4 : \A x \in {a, -a} :
    /\ LET r == Round2(x, n) IN 2 * Abs(r * P2[n] - x) <= P2[n] /\ (2 * (r * P2[n] - x) # -P2[n])
    /\ Round2Signed(-x, n) = -Round2Signed(x, n)
Logs == /\ a > 0 => P2[Log2(a)] <= a /\ a < P2[Log2(a) + 1]
        /\ a > 0 => P2[CeilLog2(a)] >= a /\ (a > 1 => P2[CeilLog2(a) - 1] < a)
        /\ a > 0 /\ b > 0 => a * P2[TileLog2(a, b)] >= b
BrevInvolution == a < 8 /\ b < P2[a] => Brev(a, Brev(a, b)) = b
\* the rounded cosines lie on the circle, fall strictly within a quadrant, and satisfy the angle sum up to rounding
Circle == /\ Abs(Cos128(a) * Cos128(a) + Sin128(a) * Sin128(a) - 4096 * 4096) <= 8192
          /\ Cos128(a + 256) = Cos128(a) /\ Cos128(-a) = Cos128(a) /\ Sin128(-a) = -Sin128(a)
          /\ Cos128(a + 128) = -Cos128(a)
          /\ Abs(Cos128(a) * Cos128(b) - Sin128(a) * Sin128(b) - 4096 * Cos128(a + b)) <= 3 * 4096
UnitsCover == a > 0 => LET u == CountUnits(a, b) IN u >= 1 /\ (u > 1 => 2 * Abs(u * a - b) <= a + 1)
\* a partition's blocks fill the square; chroma blocks never vanish
Geometry == a \in Blocks =>
    /\ BW(a) = BH(a) => \A p \in 0..9 : PartitionValid(p, BW(a)) =>
          LET d == SubDims(p, BW(a)) IN IsBlock(d[1], d[2]) /\ (BW(a) * BH(a)) % (d[1] * d[2]) = 0
    /\ \A sx, sy \in 0..1 : SubsampledValid(a, sx, sy) =>
          IsBlock(MaxI(4, BW(a) \div P2[sx]), MaxI(4, BH(a) \div P2[sy]))
=============================================================================
