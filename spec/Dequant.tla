------------------------------- MODULE Dequant -------------------------------
(* Scaling of coefficients (AV1 7.12.2, 7.12.3).  The quantizer tables and the   *)
(* weights are data of the format, in QTables.json and QMatrix.json.            *)
EXTENDS Transform, Json
QTab == JsonDeserialize("QTables.json")
QMat == JsonDeserialize("QMatrix.json")
Shift(sz) == CASE TxW(sz) * TxH(sz) > 1024 -> 4 [] TxW(sz) * TxH(sz) > 256 -> 2 [] OTHER -> 1
DcTab(depth, q) == QTab.dc[(depth - 8) \div 2 + 1][Clip3(0, 255, q) + 1]
AcTab(depth, q) == QTab.ac[(depth - 8) \div 2 + 1][Clip3(0, 255, q) + 1]

\* where the weights of each shape start (the 64s use those of their coded corner)
QmStart == <<0, 16, 80, 336, 336, 1360, 1392, 1424, 1552, 1680, 2192, 336, 336, 2704, 2768, 2832, 3088, 1680, 2192>>
Weight(level, plane, sz, pos) == QMat[level + 1][B(plane > 0) + 1][QmStart[sz + 1] + pos + 1]
\* |c| * q reduced to 24 bits, without leaving 32
Mod24(c, q) == LET l == c % 4096
                   h == (c \div 4096) % 4096
               IN (((h * q) % 4096) * 4096 + l * q) % P2[24]
Scaled(depth, sz, q, c) == LET m == Mod24(Abs(c), q) \div Shift(sz)
                           IN Clip3(-P2[7 + depth], P2[7 + depth] - 1, IF c < 0 THEN -m ELSE m)
TW(sz) == MinI(32, TxW(sz))
TH(sz) == MinI(32, TxH(sz))
=============================================================================
