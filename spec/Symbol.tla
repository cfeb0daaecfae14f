-------------------------------- MODULE Symbol --------------------------------
(* The arithmetic (symbol) decoder, AV1 8.2, as pure operators on a decoder     *)
(* state [v, r, m, p]: value, range, bits left in the tile, cursor.             *)
EXTENDS Bits

LowOf(a, b) == IF a < b THEN a ELSE b
HighOf(a, b) == IF a > b THEN a ELSE b

\* init_symbol(sz)
SymInit(d, p, sz) ==
  LET n == LowOf(8 * sz, 15)
  IN [v |-> 32767 - F(d, p, n) * Pow2[15 - n], r |-> 32768, m |-> 8 * sz - 15, p |-> p + n]

\* the boundary below symbol k of an N-symbol alphabet
Bound(r, cdf, N, k) == (((r \div 256) * ((32768 - cdf[k + 1]) \div 64)) \div 2) + 4 * (N - k - 1)

RECURSIVE FindSym(_, _, _, _)
FindSym(s, cdf, N, k) == IF s.v >= Bound(s.r, cdf, N, k) THEN k ELSE FindSym(s, cdf, N, k + 1)

\* adaptation: cdf entries move towards the symbol just decoded; the last entry counts, up to 32
Adapt(cdf, N, k) ==
  LET cnt == cdf[N + 1]
      rate == 3 + (IF cnt > 15 THEN 1 ELSE 0) + (IF cnt > 31 THEN 1 ELSE 0) + LowOf(FloorLog2(N), 2)
  IN [i \in 1..(N + 1) |->
        IF i = N + 1 THEN (IF cnt < 32 THEN cnt + 1 ELSE cnt)
        ELSE IF i = N THEN cdf[i]
        ELSE IF i - 1 < k THEN cdf[i] - (cdf[i] \div Pow2[rate])
        ELSE cdf[i] + ((32768 - cdf[i]) \div Pow2[rate])]

\* read_symbol(): the state after it, the symbol, the CDF after it
SymRead(d, s, cdf, adapt) ==
  LET N == Len(cdf) - 1
      k == FindSym(s, cdf, N, 0)
      cur == Bound(s.r, cdf, N, k)
      prev == IF k = 0 THEN s.r ELSE Bound(s.r, cdf, N, k - 1)
      bits == 15 - FloorLog2(prev - cur)
      n == LowOf(bits, HighOf(0, s.m))
      new == F(d, s.p, n) * Pow2[bits - n]
  IN [s |-> [v |-> (s.v - cur + 1) * Pow2[bits] - 1 - new, r |-> (prev - cur) * Pow2[bits],
             m |-> s.m - bits, p |-> s.p + n],
      y |-> k,
      cdf |-> IF adapt THEN Adapt(cdf, N, k) ELSE cdf]

EvenCdf == <<16384, 32768, 0>>
\* L(n)
SymLit(d, s, n) ==
  FoldLeft(LAMBDA a, i : LET x == SymRead(d, a.s, EvenCdf, FALSE) IN [s |-> x.s, y |-> 2 * a.y + x.y],
           [s |-> s, y |-> 0], [i \in 1..n |-> i])
\* NS(n)
SymNs(d, s, n) ==
  LET w == FloorLog2(n) + 1
      m == Pow2[w] - n
      a == SymLit(d, s, w - 1)
      x == SymLit(d, a.s, 1)
  IN IF a.y < m THEN a ELSE [s |-> x.s, y |-> 2 * a.y - m + x.y]

\* exit_symbol(): conformance, and the cursor after the tile
SymExitOk(s) == s.m >= -14
SymExitPos(s) == s.p + HighOf(0, s.m)

\* what a CDF must be for the decoder to make sense of it
ValidCdf(cdf) ==
  LET N == Len(cdf) - 1
  IN /\ N >= 2 /\ cdf[N] = 32768 /\ cdf[N + 1] \in 0..32
     /\ cdf[1] >= 0 /\ \A i \in 1..(N - 1) : cdf[i] <= cdf[i + 1]
=============================================================================
