------------------------------ MODULE Transform ------------------------------
(* The inverse transforms (AV1 7.13).                                          *)
(* A one-dimensional transform is a list of butterfly steps applied to a tuple; *)
(* the lists are built from the size alone.                                    *)
EXTENDS Arith

TxDims == <<<<4,4>>, <<8,8>>, <<16,16>>, <<32,32>>, <<64,64>>, <<4,8>>, <<8,4>>, <<8,16>>, <<16,8>>, <<16,32>>, <<32,16>>,
            <<32,64>>, <<64,32>>, <<4,16>>, <<16,4>>, <<8,32>>, <<32,8>>, <<16,64>>, <<64,16>>>>
TxW(t) == TxDims[t + 1][1]
TxH(t) == TxDims[t + 1][2]

\* the same sequence, with its elements computed once
Made(s) == SubSeq(s, 1, Len(s))

\* floor((sum of c[i]*v[i] + 2048) / 4096), c below 2^14; v is split so that no product leaves 32 bits
Dot12(c, v) ==
  LET n == Len(c)
      hi == FoldLeft(LAMBDA a, i : a + c[i] * (v[i] \div 1024), 0, [i \in 1..n |-> i])
      lo == FoldLeft(LAMBDA a, i : a + c[i] * (v[i] % 1024), 2048, [i \in 1..n |-> i])
  IN (hi + lo \div 1024) \div 4
Dot2(c1, v1, c2, v2) ==
  (c1 * (v1 \div 1024) + c2 * (v2 \div 1024) + (c1 * (v1 % 1024) + c2 * (v2 % 1024) + 2048) \div 1024) \div 4
Scale12(c, v) == (c * (v \div 1024) + (c * (v % 1024) + 2048) \div 1024) \div 4

------------------------------------------------------------------------------
(* Butterfly steps on positions counted from 0 *)
Rot(a, b, angle, flip) == [k |-> "rot", a |-> a + 1, b |-> b + 1, c |-> Cos128(angle), s |-> Sin128(angle), f |-> flip]
Had(a, b, flip) == IF flip = 1 THEN [k |-> "had", a |-> b + 1, b |-> a + 1, c |-> 0, s |-> 0, f |-> 0]
                   ELSE [k |-> "had", a |-> a + 1, b |-> b + 1, c |-> 0, s |-> 0, f |-> 0]
Sat(r, v) == Clip3(-P2[r - 1], P2[r - 1] - 1, v)
Apply(T, o, r) ==
  LET x == T[o.a]
      y == T[o.b]
  IN IF o.k = "rot" THEN
       LET u == Dot2(o.c, x, -o.s, y)
           v == Dot2(o.s, x, o.c, y)
       IN IF o.f = 1 THEN [T EXCEPT ![o.a] = v, ![o.b] = u] ELSE [T EXCEPT ![o.a] = u, ![o.b] = v]
     ELSE [T EXCEPT ![o.a] = Sat(r, x + y), ![o.b] = Sat(r, x - y)]
Run(ops, T, r) == FoldLeft(LAMBDA t, o : Apply(t, o, r), T, ops)

\* [i |-> f(i)] for i below n, and pairs (i, j)
S1(n, f(_)) == [i \in 1..n |-> f(i - 1)]
S2(n, m, f(_, _)) == [i \in 1..(n * m) |-> f((i - 1) \div m, (i - 1) % m)]
If(c, s) == IF c THEN s ELSE <<>>

DctSteps(n) ==
     If(n = 6, S1(16, LAMBDA i : Rot(32 + i, 63 - i, 63 - 4 * Brev(4, i), 0)))
  \o If(n >= 5, S1(8, LAMBDA i : Rot(16 + i, 31 - i, 6 + 8 * Brev(3, 7 - i), 0)))
  \o If(n = 6, S1(16, LAMBDA i : Had(32 + 2 * i, 33 + 2 * i, i % 2)))
  \o If(n >= 4, S1(4, LAMBDA i : Rot(8 + i, 15 - i, 12 + 16 * Brev(2, 3 - i), 0)))
  \o If(n >= 5, S1(8, LAMBDA i : Had(16 + 2 * i, 17 + 2 * i, i % 2)))
  \o If(n = 6, S2(4, 2, LAMBDA i, j : Rot(62 - i * 4 - j, 33 + i * 4 + j, 60 - 16 * Brev(2, i) + 64 * j, 1)))
  \o If(n >= 3, S1(2, LAMBDA i : Rot(4 + i, 7 - i, 56 - 32 * i, 0)))
  \o If(n >= 4, S1(4, LAMBDA i : Had(8 + 2 * i, 9 + 2 * i, i % 2)))
  \o If(n >= 5, S2(2, 2, LAMBDA i, j : Rot(30 - 4 * i - j, 17 + 4 * i + j, 24 + 64 * j + 32 * (1 - i), 1)))
  \o If(n = 6, S2(8, 2, LAMBDA i, j : Had(32 + i * 4 + j, 35 + i * 4 - j, i % 2)))
  \o S1(2, LAMBDA i : Rot(2 * i, 2 * i + 1, 32 + 16 * i, 1 - i))
  \o If(n >= 3, S1(2, LAMBDA i : Had(4 + 2 * i, 5 + 2 * i, i)))
  \o If(n >= 4, S1(2, LAMBDA i : Rot(14 - i, 9 + i, 48 + 64 * i, 1)))
  \o If(n >= 5, S2(4, 2, LAMBDA i, j : Had(16 + 4 * i + j, 19 + 4 * i - j, i % 2)))
  \o If(n = 6, S2(2, 4, LAMBDA i, j : Rot(61 - i * 8 - j, 34 + i * 8 + j, 56 - i * 32 + (j \div 2) * 64, 1)))
  \o S1(2, LAMBDA i : Had(i, 3 - i, 0))
  \o If(n >= 3, <<Rot(6, 5, 32, 1)>>)
  \o If(n >= 4, S2(2, 2, LAMBDA i, j : Had(8 + 4 * i + j, 11 + 4 * i - j, i)))
  \o If(n >= 5, S1(4, LAMBDA i : Rot(29 - i, 18 + i, 48 + (i \div 2) * 64, 1)))
  \o If(n = 6, S2(4, 4, LAMBDA i, j : Had(32 + 8 * i + j, 39 + 8 * i - j, i % 2)))
  \o If(n >= 3, S1(4, LAMBDA i : Had(i, 7 - i, 0)))
  \o If(n >= 4, S1(2, LAMBDA i : Rot(13 - i, 10 + i, 32, 1)))
  \o If(n >= 5, S2(2, 4, LAMBDA i, j : Had(16 + i * 8 + j, 23 + i * 8 - j, i)))
  \o If(n = 6, S1(8, LAMBDA i : Rot(59 - i, 36 + i, IF i < 4 THEN 48 ELSE 112, 1)))
  \o If(n >= 4, S1(8, LAMBDA i : Had(i, 15 - i, 0)))
  \o If(n >= 5, S1(4, LAMBDA i : Rot(27 - i, 20 + i, 32, 1)))
  \o If(n = 6, S1(8, LAMBDA i : Had(32 + i, 47 - i, 0)) \o S1(8, LAMBDA i : Had(48 + i, 63 - i, 1)))
  \o If(n >= 5, S1(16, LAMBDA i : Had(i, 31 - i, 0)))
  \o If(n = 6, S1(8, LAMBDA i : Rot(55 - i, 40 + i, 32, 1)))
  \o If(n = 6, S1(32, LAMBDA i : Had(i, 63 - i, 0)))
DctOps == [n \in 2..6 |-> DctSteps(n)]
DctIn == [n \in 2..6 |-> [i \in 1..P2[n] |-> Brev(n, i - 1) + 1]]
Dct(n, T, r) == Run(DctOps[n], Made([i \in 1..P2[n] |-> T[DctIn[n][i]]]), r)

Adst4(T) ==
  LET S == <<1321, 2482, 3344, 3803>>
  IN <<Dot12(<<S[1], S[3], S[4], S[2]>>, T),
       Dot12(<<S[2], S[3], -S[1], -S[4]>>, T),
       Dot12(<<S[3], 0, -S[3], S[3]>>, T),
       Dot12(<<S[4], -S[3], S[2], -S[1]>>, T)>>
AdstIn == [n \in 3..4 |-> [i \in 1..P2[n] |-> (IF i % 2 = 0 THEN i - 2 ELSE P2[n] - i) + 1]]
AdstOut == [n \in 3..4 |->
  [k \in 1..P2[n] |->
    LET i == k - 1
        x(p) == (i \div P2[p]) % 2
        a == x(3)
        b == (x(2) + x(3)) % 2
        c == (x(1) + x(2)) % 2
        d == (x(0) + x(1)) % 2
    IN (8 * d + 4 * c + 2 * b + a) \div P2[4 - n] + 1]]
AdstOps == [n \in 3..4 |->
  IF n = 3 THEN
       S1(4, LAMBDA i : Rot(2 * i, 2 * i + 1, 60 - 16 * i, 1))
    \o S1(4, LAMBDA i : Had(i, 4 + i, 0))
    \o S1(2, LAMBDA i : Rot(4 + 3 * i, 5 + i, 48 - 32 * i, 1))
    \o S2(2, 2, LAMBDA i, j : Had(4 * j + i, 2 + 4 * j + i, 0))
    \o S1(2, LAMBDA i : Rot(2 + 4 * i, 3 + 4 * i, 32, 1))
  ELSE
       S1(8, LAMBDA i : Rot(2 * i, 2 * i + 1, 62 - 8 * i, 1))
    \o S1(8, LAMBDA i : Had(i, 8 + i, 0))
    \o S2(2, 2, LAMBDA i, j : IF j = 0 THEN Rot(8 + 2 * i, 9 + 2 * i, 56 - 32 * i, 1) ELSE Rot(13 + 2 * i, 12 + 2 * i, 8 + 32 * i, 1))
    \o S2(4, 2, LAMBDA i, j : Had(8 * j + i, 4 + 8 * j + i, 0))
    \o S2(2, 2, LAMBDA i, j : Rot(4 + 8 * j + 3 * i, 5 + 8 * j + i, 48 - 32 * i, 1))
    \o S2(2, 4, LAMBDA i, j : Had(4 * j + i, 2 + 4 * j + i, 0))
    \o S1(4, LAMBDA i : Rot(2 + 4 * i, 3 + 4 * i, 32, 1))]
Adst(n, T, r) ==
  IF n = 2 THEN Adst4(T)
  ELSE LET u == Run(AdstOps[n], Made([i \in 1..P2[n] |-> T[AdstIn[n][i]]]), r)
       IN [i \in 1..P2[n] |-> IF i % 2 = 0 THEN -u[AdstOut[n][i]] ELSE u[AdstOut[n][i]]]

Identity(n, T) == CASE n = 2 -> [i \in 1..4 |-> Scale12(5793, T[i])]
                    [] n = 3 -> [i \in 1..8 |-> 2 * T[i]]
                    [] n = 4 -> [i \in 1..16 |-> Scale12(11586, T[i])]
                    [] n >= 5 -> [i \in 1..P2[n] |-> 4 * T[i]]

Wht(T, sh) ==
  LET a0 == T[1] \div P2[sh]
      c0 == T[2] \div P2[sh]
      d0 == T[3] \div P2[sh]
      b0 == T[4] \div P2[sh]
      a1 == a0 + c0
      d1 == d0 - b0
      e == (a1 - d1) \div 2
      b == e - b0
      c == e - c0
  IN <<a1 - b, b, c, d1 + c>>

------------------------------------------------------------------------------
(* Transform types 0..15: the one-dimensional transforms down the columns and along the rows *)
ColKind == <<"dct", "adst", "dct", "adst", "flip", "dct", "flip", "adst", "flip", "id", "dct", "id", "adst", "id", "flip", "id">>
RowKind == <<"dct", "dct", "adst", "adst", "dct", "flip", "flip", "flip", "adst", "id", "id", "dct", "id", "adst", "id", "flip">>
OneD(kind, n, T, r) == CASE kind = "dct" -> Dct(n, T, r)
                         [] kind \in {"adst", "flip"} -> Adst(n, T, r)
                         [] kind = "id" -> Identity(n, T)
RowShift == <<0, 1, 2, 2, 2, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2>>

\* D[i+1][j+1] is the dequantised coefficient of row i, column j, for the coded 32x32 corner at most
\* (the array of a lossless block is 4x4); the result is the residual of the whole block
Inverse2D(sz, ty, lossless, bd, D) ==
  LET w == TxW(sz)
      h == TxH(sz)
      n == Log2(w)
      m == Log2(h)
      cr == MaxI(bd + 6, 16)
      zero == Made([j \in 1..w |-> 0])
      row(i) == IF i > Len(D) THEN zero
                ELSE LET s == Made([j \in 1..w |-> IF j <= Len(D[i]) THEN D[i][j] ELSE 0])
                     IN IF s = zero THEN zero
                        ELSE LET q == IF Abs(n - m) = 1 THEN Made([j \in 1..w |-> Scale12(2896, s[j])]) ELSE s
                                 o == IF lossless = 1 THEN Wht(q, 2) ELSE OneD(RowKind[ty + 1], n, q, bd + 8)
                             IN Made([j \in 1..w |-> Sat(cr, Round2(o[j], IF lossless = 1 THEN 0 ELSE RowShift[sz + 1]))])
      col(R, j) == LET s == Made([i \in 1..h |-> R[i][j]])
                   IN IF lossless = 1 THEN Wht(s, 0)
                      ELSE LET o == OneD(ColKind[ty + 1], m, s, cr) IN Made([i \in 1..h |-> Round2(o[i], 4)])
      Rs == Made([i \in 1..h |-> row(i)])
      Cs == Made([j \in 1..w |-> col(Rs, j)])
      y(i) == IF lossless = 0 /\ ColKind[ty + 1] = "flip" THEN h + 1 - i ELSE i
      x(j) == IF lossless = 0 /\ RowKind[ty + 1] = "flip" THEN w + 1 - j ELSE j
  IN [i \in 1..h |-> [j \in 1..w |-> Cs[x(j)][y(i)]]]

=============================================================================
