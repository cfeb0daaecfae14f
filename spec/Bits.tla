-------------------------------- MODULE Bits --------------------------------
(* Bits and the descriptors of AV1 section 4.10, stated on bit strings.      *)
(* A bitstream is a sequence of bytes; positions count bits from 0.  Reading  *)
(* past the end yields 0 bits; a caller judges overrun with Over(d, p).       *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Pow2 == [i \in 0..30 |-> 2^i]

Over(d, p) == p > 8 * Len(d)

Bit(d, p) == IF p < 8 * Len(d) THEN (d[(p \div 8) + 1] \div Pow2[7 - (p % 8)]) % 2 ELSE 0

\* the n bits at p, most significant first
BitSeq(d, p, n) == [i \in 1..n |-> Bit(d, p + i - 1)]

\* f(n) for n <= 30 as an integer
F(d, p, n) == FoldLeft(LAMBDA x, b : 2 * x + b, 0, BitSeq(d, p, n))

------------------------------------------------------------------------------
(* Wide values: 64-bit two's complement, four 16-bit limbs, high limb first. *)

\* bit string s (most significant first, at most 64 bits) extended with bit e
Ext64(s, e) == [i \in 1..64 |-> IF i > 64 - Len(s) THEN s[i - (64 - Len(s))] ELSE e]
Limbs64(s) == [k \in 1..4 |-> FoldLeft(LAMBDA x, i : 2 * x + s[16 * (k - 1) + i], 0, [i \in 1..16 |-> i])]
ULimbs(s) == Limbs64(Ext64(s, 0))
SLimbs(s) == Limbs64(Ext64(s, IF Len(s) = 0 THEN 0 ELSE s[1]))
\* minus one, for a value that is not zero
RECURSIVE DecAt(_, _)
DecAt(l, k) == IF l[k] > 0 THEN [l EXCEPT ![k] = @ - 1] ELSE DecAt([l EXCEPT ![k] = 65535], k - 1)
Dec(l) == DecAt(l, 4)
\* limbs of an integer in TLC's range
IntLimbs(v) == IF v >= 0 THEN <<0, 0, v \div 65536, v % 65536>>
               ELSE <<65535, 65535, 65535 - ((-v - 1) \div 65536), 65535 - ((-v - 1) % 65536)>>

------------------------------------------------------------------------------
RECURSIVE FloorLog2(_)
FloorLog2(x) == IF x < 2 THEN 0 ELSE 1 + FloorLog2(x \div 2)

\* number of zero bits before the first one bit at or after p (p itself bounded by the data)
RECURSIVE Zeros(_, _)
Zeros(d, p) == IF p >= 8 * Len(d) \/ Bit(d, p) = 1 THEN 0 ELSE 1 + Zeros(d, p + 1)

\* each descriptor: [l |-> limbs of the value, p |-> position after it]
DescF(d, p, n) == [l |-> ULimbs(BitSeq(d, p, n)), p |-> p + n]

DescSu(d, p, n) == [l |-> SLimbs(BitSeq(d, p, n)), p |-> p + n]

DescUvlc(d, p) ==
  LET z == Zeros(d, p)
      q == p + z + 1            \* after the terminating one bit
  IN IF z >= 32 THEN [l |-> <<0, 0, 65535, 65535>>, p |-> q]
     ELSE [l |-> Dec(ULimbs(<<1>> \o BitSeq(d, q, z))), p |-> q + z]

\* leb128: at most eight bytes, seven payload bits each, least significant group first
RECURSIVE LebLen(_, _, _)
LebLen(d, p, i) == IF Bit(d, p) = 0 \/ i = 8 THEN i ELSE LebLen(d, p + 8, i + 1)
DescLeb(d, p) ==
  LET n == LebLen(d, p, 1)
      payload == [i \in 1..(7 * n) |-> LET g == n - 1 - ((i - 1) \div 7)   \* group, 0 is first in the data
                                           b == (i - 1) % 7
                                       IN Bit(d, p + 8 * g + 1 + b)]
  IN [l |-> ULimbs(payload), p |-> p + 8 * n, n |-> n]

DescLe(d, p, n) ==
  [l |-> ULimbs([i \in 1..(8 * n) |-> LET g == n - 1 - ((i - 1) \div 8) IN Bit(d, p + 8 * g + ((i - 1) % 8))]),
   p |-> p + 8 * n]

\* ns(n), 1 <= n: value below n, w-1 or w bits
NsR(d, p, n) ==
  LET w == FloorLog2(n) + 1
      m == Pow2[w] - n
      v == F(d, p, w - 1)
  IN IF v < m THEN [v |-> v, p |-> p + w - 1]
     ELSE [v |-> 2 * v - m + Bit(d, p + w - 1), p |-> p + w]
DescNs(d, p, n) == LET r == NsR(d, p, n) IN [l |-> IntLimbs(r.v), p |-> r.p]

\* su(n) as an integer, n <= 30
Su(d, p, n) == LET v == F(d, p, n) IN IF v >= Pow2[n - 1] THEN v - Pow2[n] ELSE v

------------------------------------------------------------------------------
(* Writers, the inverse of the readers (bit strings).                         *)
RECURSIVE IntBits(_, _)
IntBits(v, n) == IF n = 0 THEN <<>> ELSE Append(IntBits(v \div 2, n - 1), v % 2)
EncF(v, n) == IntBits(v, n)
EncSu(v, n) == IF v < 0 THEN IntBits(v + Pow2[n], n) ELSE IntBits(v, n)
EncNs(v, n) == LET w == FloorLog2(n) + 1
                   m == Pow2[w] - n
               IN IF v < m THEN IntBits(v, w - 1)
                  ELSE IntBits((v + m) \div 2, w - 1) \o <<(v + m) % 2>>
EncUvlc(v) == LET z == FloorLog2(v + 1) IN [i \in 1..z |-> 0] \o IntBits(v + 1, z + 1)
RECURSIVE EncLeb(_)
EncLeb(v) == IF v < 128 THEN IntBits(v, 8) ELSE IntBits(128 + (v % 128), 8) \o EncLeb(v \div 128)
RECURSIVE EncLe(_, _)
EncLe(v, n) == IF n = 0 THEN <<>> ELSE IntBits(v % 256, 8) \o EncLe(v \div 256, n - 1)
PackBits(s) == LET n == (Len(s) + 7) \div 8
                   t == [i \in 1..(8 * n) |-> IF i <= Len(s) THEN s[i] ELSE 0]
               IN [k \in 1..n |-> FoldLeft(LAMBDA x, i : 2 * x + t[8 * (k - 1) + i], 0, [i \in 1..8 |-> i])]
=============================================================================
