-------------------------------- MODULE Arith --------------------------------
(* The arithmetic of AV1 section 4.7, 7.10/7.11 helpers and block geometry.     *)
(* Functions are stated by what they mean (least k, nearest multiple, ...), not  *)
(* by the loops that compute them.                                             *)
EXTENDS Integers, Sequences, SequencesExt, TLC

P2 == [i \in 0..30 |-> 2^i]
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
B(x) == IF x THEN 1 ELSE 0
Least(S, Q(_)) == CHOOSE x \in S : Q(x) /\ \A y \in S : y < x => ~Q(y)

TileLog2(blk, target) == Least(0..30, LAMBDA k : P2[k] >= (target + blk - 1) \div blk)
CeilLog2(x) == Least(0..30, LAMBDA k : P2[k] >= x)
Log2(x) == Least(0..30, LAMBDA k : k = 30 \/ P2[k + 1] > x)      \* x > 0

\* floor(x / 2^n) for any sign is \div
Round2(x, n) == IF n = 0 THEN x ELSE (x + P2[n - 1]) \div P2[n]
Round2Signed(x, n) == IF x < 0 THEN -Round2(-x, n) ELSE Round2(x, n)
Clip3(lo, hi, x) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Clip1(x, depth) == Clip3(0, P2[depth] - 1, x)

\* v counts positions outwards from r: r, r-1, r+1, r-2, ... while both sides exist (within 0..2r), then upwards
InverseRecenter(r, v) == IF v > 2 * r THEN v ELSE IF v % 2 = 1 THEN r - (v + 1) \div 2 ELSE r + v \div 2

\* diff counts the values of 0..max-1 outwards from ref: ref, ref+1, ref-1, ref+2, ... then the remaining side
NegDeinterleave(diff, ref, max) ==
  LET below == ref
      above == max - 1 - ref
      both == MinI(below, above)
  IN IF diff <= 2 * both THEN (IF diff % 2 = 1 THEN ref + (diff + 1) \div 2 ELSE ref - diff \div 2)
     ELSE IF above > below THEN diff ELSE max - 1 - diff

Brev(n, x) == FoldLeft(LAMBDA a, i : a + ((x \div P2[i - 1]) % 2) * P2[n - i], 0, [i \in 1..n |-> i])

\* 4096 * cos(pi * a / 128) for a = 0..64, rounded
CosTab == <<4096, 4095, 4091, 4085, 4076, 4065, 4052, 4036, 4017, 3996, 3973, 3948, 3920, 3889, 3857, 3822,
            3784, 3745, 3703, 3659, 3612, 3564, 3513, 3461, 3406, 3349, 3290, 3229, 3166, 3102, 3035, 2967,
            2896, 2824, 2751, 2675, 2598, 2520, 2440, 2359, 2276, 2191, 2106, 2019, 1931, 1842, 1751, 1660,
            1567, 1474, 1380, 1285, 1189, 1092, 995, 897, 799, 700, 601, 501, 401, 301, 201, 101, 0>>
Cos128(a) == LET q == a % 256
                 h == IF q > 128 THEN 256 - q ELSE q      \* even
             IN IF h <= 64 THEN CosTab[h + 1] ELSE -CosTab[128 - h + 1]      \* cos(pi - x) = -cos x
Sin128(a) == Cos128(64 - a)

ObmcMask(n) == CASE n = 2 -> <<45, 64>>
                 [] n = 4 -> <<39, 50, 59, 64>>
                 [] n = 8 -> <<36, 42, 48, 53, 57, 61, 64, 64>>
                 [] n = 16 -> <<34, 37, 40, 43, 46, 49, 52, 54, 56, 58, 60, 61, 64, 64, 64, 64>>
                 [] n = 32 -> <<33, 35, 36, 38, 40, 41, 43, 44, 45, 47, 48, 50, 51, 52, 53, 55,
                                56, 57, 58, 59, 60, 60, 61, 62, 64, 64, 64, 64, 64, 64, 64, 64>>

CountUnits(unit, size) == MaxI((size + unit \div 2) \div unit, 1)
LsProduct(a, b) == (a * b) \div 4 + (a + b)

\* prediction modes from NEARESTMV on: NEAREST, NEAR, GLOBAL, NEW, NEAREST_NEAREST, NEAR_NEAR, NEAREST_NEW,
\* NEW_NEAREST, NEAR_NEW, NEW_NEAR, GLOBAL_GLOBAL, NEW_NEW
NewMvModes == {3, 6, 7, 8, 9, 11}

SortRange(s, i, j) == \* positions i..j (from 0) ascending, the rest untouched
  SubSeq(s, 1, i) \o SortSeq(SubSeq(s, i + 1, j + 1), LAMBDA a, b : a < b) \o SubSeq(s, j + 2, Len(s))

------------------------------------------------------------------------------
(* Block geometry: sizes in the order of the format's block size numbers 0..21 *)
BlockDims == <<<<4,4>>, <<4,8>>, <<8,4>>, <<8,8>>, <<8,16>>, <<16,8>>, <<16,16>>, <<16,32>>, <<32,16>>, <<32,32>>,
               <<32,64>>, <<64,32>>, <<64,64>>, <<64,128>>, <<128,64>>, <<128,128>>, <<4,16>>, <<16,4>>, <<8,32>>,
               <<32,8>>, <<16,64>>, <<64,16>>>>
BW(b) == BlockDims[b + 1][1]
BH(b) == BlockDims[b + 1][2]
Blocks == 0..21
IsBlock(w, h) == \E b \in Blocks : BW(b) = w /\ BH(b) = h
BlockOf(w, h) == CHOOSE b \in Blocks : BW(b) = w /\ BH(b) = h

\* partitions: NONE HORZ VERT SPLIT HORZ_A HORZ_B VERT_A VERT_B HORZ_4 VERT_4, of square blocks of 8x8 and more
SubDims(p, n) == CASE p = 0 -> <<n, n>> [] p \in {1, 4, 5} -> <<n, n \div 2>> [] p \in {2, 6, 7} -> <<n \div 2, n>>
                   [] p = 3 -> <<n \div 2, n \div 2>> [] p = 8 -> <<n, n \div 4>> [] p = 9 -> <<n \div 4, n>>
PartitionValid(p, n) == n >= 8 /\ (p > 3 => n > 8) /\ (p > 7 => n < 128)
Subsize(p, n) == LET d == SubDims(p, n) IN BlockOf(d[1], d[2])

\* size of the chroma block of a luma block under subsampling
SubsampledValid(b, sx, sy) == \/ sx = sy
                              \/ sx = 1 /\ sy = 0 /\ BW(b) >= BH(b)
                              \/ sx = 0 /\ sy = 1 /\ BH(b) >= BW(b)
Subsampled(b, sx, sy) == BlockOf(MaxI(4, BW(b) \div P2[sx]), MaxI(4, BH(b) \div P2[sy]))
=============================================================================
