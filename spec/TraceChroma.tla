----------------------------- MODULE TraceChroma -----------------------------
(* Recordings of chroma from luma (Kind 0) and palette (Kind 1) prediction.      *)
EXTENDS ChromaPred, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
In == Cases[ci].in
Got == Cases[ci].out
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
Spec == Init /\ [][Next]_ci
Sample(p, y, x) == (In.B + 77 * p + In.P * y * y + In.Q * x * x + In.R * x * y) % P2[In.Depth]
Expected ==
  IF In.Kind = 0
  THEN CflPred(LAMBDA y, x : Sample(In.Plane, y, x), LAMBDA y, x : Sample(0, y, x), In.Y, In.X, In.Sz,
               IF In.Plane = 1 THEN In.AlphaU ELSE In.AlphaV, In.SubX, In.SubY, In.MaxW, In.MaxH, In.Depth)
  ELSE PalettePred(In.Colors[In.Plane + 1], IF In.Plane = 0 THEN In.MapY ELSE In.MapUV, In.By, In.Bx, In.Sz)
Conforms == Got.st = "ok" /\ Got.other = 0 /\ Got.px = Expected
=============================================================================
