------------------------------ MODULE TraceScans ------------------------------
(* The scan the code uses for every transform size and every type it may have. *)
EXTENDS Coeffs, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
In == Cases[ci].in
Got == Cases[ci].out
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
Spec == Init /\ [][Next]_ci
OneD == Vertical(In.Ty) \/ Horizontal(In.Ty)
Possible == OneD => SqrUp(In.Sz) <= 2     \* larger ones are never transformed in one direction only
Conforms == Possible => Got.st = "ok" /\ Got.scan = ScanOf(In.Sz, In.Ty)
=============================================================================
