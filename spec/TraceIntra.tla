------------------------------ MODULE TraceIntra ------------------------------
(* Recordings of intra predicted transform blocks.                             *)
EXTENDS IntraPred, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
In == Cases[ci].in
Got == Cases[ci].out
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
Spec == Init /\ [][Next]_ci

Bk == In.Blk
Sample(y, x) == (In.B + In.P * y * y + In.Q * x * x + In.R * x * y) % P2[In.Depth]
SX == IF Bk.Plane > 0 THEN In.SubX ELSE 0
SY == IF Bk.Plane > 0 THEN In.SubY ELSE 0
LastX == (In.MiCols * 4) \div P2[SX] - 1
LastY == (In.MiRows * 4) \div P2[SY] - 1

\* is a neighbouring block predicted smoothly?  For chroma the neighbour is the block that carries the chroma of its 8x8
Around(t, r, c) == t[r - Bk.Row + 3][c - Bk.Col + 3]
Smooth(r, c) == IF Bk.Plane = 0 THEN Around(Bk.YM, r, c) \in 9..11
                ELSE Around(Bk.Rf, r, c) <= 0 /\ Around(Bk.UM, r, c) \in 9..11
SmoothAbove == /\ (IF Bk.Plane = 0 THEN Bk.Au ELSE Bk.Auc) = 1
               /\ Smooth(Bk.Row - 1 - B(SY = 1 /\ Bk.Row % 2 = 1), Bk.Col + B(SX = 1 /\ Bk.Col % 2 = 0))
SmoothLeft == /\ (IF Bk.Plane = 0 THEN Bk.Al ELSE Bk.Alc) = 1
              /\ Smooth(Bk.Row + B(SY = 1 /\ Bk.Row % 2 = 0), Bk.Col - 1 - B(SX = 1 /\ Bk.Col % 2 = 1))

W == P2[Bk.LogW]
H == P2[Bk.LogH]
Expected ==
  Predict(Bk.Mode, IF Bk.Plane = 0 THEN Bk.AdY ELSE Bk.AdUV, Bk.Fi,
          Above(Sample, Bk.Y, Bk.X, W, H, Bk.Hl, Bk.Ha, Bk.Har, LastX, In.Depth),
          Left(Sample, Bk.Y, Bk.X, W, H, Bk.Hl, Bk.Ha, Bk.Hbl, LastY, In.Depth),
          W, H, Bk.Hl, Bk.Ha, LastX - Bk.X + 1, LastY - Bk.Y + 1, In.Filter, B(SmoothAbove \/ SmoothLeft), In.Depth)
Conforms == Got.st = "ok" /\ Got.other = 0 /\ Got.px = Expected
=============================================================================
