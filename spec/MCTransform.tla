----------------------------- MODULE MCTransform -----------------------------
(* The step lists of Transform.tla against what they are for: the response to a   *)
(* single coefficient is a sampled cosine or sine, up to rounding; and against     *)
(* the structure of the scaling data.                                          *)
EXTENDS Dequant
CONSTANTS Sizes, Amps, Levels
VARIABLES kind, n, pos, amp
vars == <<kind, n, pos, amp>>
Init == /\ kind \in {"dct", "adst", "wht", "qm", "tab"}
        /\ n \in Sizes \cup Levels
        /\ (kind = "dct" => n \in Sizes) /\ (kind = "adst" => n \in Sizes \cap 2..4) /\ (kind = "wht" => n = 2) /\ (kind = "qm" => n \in Levels)
        /\ (kind = "tab" => n \in {0, 1, 2})
        /\ pos \in 0..(IF kind \in {"dct", "adst", "wht"} THEN P2[n] - 1 ELSE 0)
        /\ amp \in (IF kind \in {"dct", "adst", "wht"} THEN Amps \cup {-a : a \in Amps} ELSE {0})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Impulse == [i \in 1..P2[n] |-> IF i = pos + 1 THEN amp ELSE 0]
\* amp * c / 4096, to the nearest, with c a table value
Near(got, c, tol) == Abs(got - Scale12(c, amp)) <= tol
DctBasis(x) == IF pos = 0 THEN 2896 ELSE Cos128((2 * x + 1) * pos * P2[6 - n])
AdstBasis(x) == Sin128((2 * x + 1) * (2 * pos + 1) * P2[5 - n])
SinPi9 == <<1321, 2482, 3344, 3803>>
\* sin(pi (2k+1)(x+1) / 9) * 2 sqrt(2) / 3 * 4096, through the table of its four values
Sin9(a) == LET r == a % 18
               q == IF r > 9 THEN 18 - r ELSE r
               s == IF q > 4 THEN 9 - q ELSE q
               v == IF s = 0 THEN 0 ELSE SinPi9[s]
           IN IF r > 9 THEN -v ELSE v
Cosines == kind = "dct" => LET o == Dct(n, Made(Impulse), 24) IN \A x \in 0..(P2[n] - 1) : Near(o[x + 1], DctBasis(x), 2 + n + Abs(amp) \div 1500)
Sines == /\ (kind = "adst" /\ n > 2) => LET o == Adst(n, Made(Impulse), 24)
                                        IN \A x \in 0..(P2[n] - 1) : Near(o[x + 1], AdstBasis(x), 2 + n + Abs(amp) \div 1500)
         /\ (kind = "adst" /\ n = 2) => LET o == Adst4(Impulse) IN \A x \in 0..3 : Near(o[x + 1], Sin9((2 * pos + 1) * (x + 1)), 1)
\* lossless: the transform of a 4x4 block is undone by the forward Walsh-Hadamard transform
Fwd(v) == LET a == v[1] + v[2]
              d == v[4] - v[3]
              e == (a - d) \div 2
              b == e - v[2]
              c == e - v[3]
          IN <<a - c, c, d + b, b>>
Lossless == kind = "wht" => \A k \in -3..3 : LET v == [i \in 1..4 |-> IF i = pos + 1 THEN amp ELSE k * i] IN Fwd(Wht(v, 0)) = v
\* weights: about 32 (unity) at DC of every shape; symmetric when square; a shape and its transpose agree; the small squares sample the large one
QM(l, p, s, i, j) == Weight(l, p, s, i * TW(s) + j)
Shapes == {0, 1, 2, 3}
Tall == {<<5, 6>>, <<7, 8>>, <<9, 10>>, <<13, 14>>, <<15, 16>>}
Weights == kind = "qm" => \A p \in 0..1 :
  /\ \A s \in 0..18 : QM(n, p, s, 0, 0) \in 31..35
  /\ \A s \in 0..18 : \A i \in 0..(TH(s) - 1) : \A j \in 0..(TW(s) - 1) : QM(n, p, s, i, j) \in 30..242
  /\ \A s \in Shapes : \A i \in 0..(TH(s) - 1) : \A j \in 0..i : QM(n, p, s, i, j) = QM(n, p, s, j, i)
  /\ \A t \in Tall : \A i \in 0..(TH(t[1]) - 1) : \A j \in 0..(TW(t[1]) - 1) : QM(n, p, t[1], i, j) = QM(n, p, t[2], j, i)
  /\ \A s \in 0..2 : \A i \in 0..(TH(s) - 1) : \A j \in 0..i :
       LET st == 32 \div TW(s)
           o == <<3, 1, 0>>[s + 1]
       IN QM(n, p, s, i, j) = QM(n, p, 3, st * i + o, st * j + o)
\* the quantizer grows with its index, and with the bit depth about fourfold
Tables == kind = "tab" => /\ \A q \in 1..255 : DcTab(8 + 2 * n, q) >= DcTab(8 + 2 * n, q - 1) /\ AcTab(8 + 2 * n, q) > AcTab(8 + 2 * n, q - 1)
                          /\ DcTab(8 + 2 * n, 0) = 4 /\ AcTab(8 + 2 * n, 0) = 4
                          /\ DcTab(8 + 2 * n, 255) = <<1336, 5347, 21387>>[n + 1] /\ AcTab(8 + 2 * n, 255) = <<1828, 7312, 29247>>[n + 1]
=============================================================================
