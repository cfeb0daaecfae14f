----------------------------- MODULE TraceRestore -----------------------------
(* Recordings of super-resolution (Kind 0) and loop restoration (Kind 1).        *)
EXTENDS Restore, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
In == Cases[ci].in
Got == Cases[ci].out
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
Spec == Init /\ [][Next]_ci
Half(v, p, s) == IF p = 0 THEN v ELSE (v + s) \div P2[s]
SX(p) == IF p = 0 THEN 0 ELSE In.SubX
SY(p) == IF p = 0 THEN 0 ELSE In.SubY
\* without super-resolution the frame is handed on
Upscaled(p) ==
  LET dw == Half(In.W, p, In.SubX)
      uw == Half(In.UpW, p, In.SubX)
      h == Half(In.H, p, In.SubY)
      rows == SubSeq(In.Cdef[p + 1], 1, h)
  IN IF In.Super = 0 THEN Made([y \in 1..h |-> SubSeq(rows[y], 1, uw)])
     ELSE UpPlane(rows, dw, uw, (In.MiCols \div P2[SX(p)]) * 4, In.Depth)
Restored(p) ==
  IF In.Types[p + 1] = 0 THEN In.Cdef[p + 1]
  ELSE RestorePlane(In.Deb[p + 1], In.Cdef[p + 1], Half(In.UpW, p, In.SubX), Half(In.H, p, In.SubY), SX(p), SY(p), In.Unit[p + 1], In.Units[p + 1], In.Depth)
Conforms == /\ Got.st = "ok" /\ Got.same = 1
            /\ \A p \in 0..(Len(In.Cdef) - 1) : Got.px[p + 1] = (IF In.Kind = 0 THEN Upscaled(p) ELSE Restored(p))
=============================================================================
