---------------------------- MODULE TraceQuantTab ----------------------------
(* Every weight and every table entry, as the code applies them.               *)
EXTENDS Dequant, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
In == Cases[ci].in
Got == Cases[ci].out
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
Spec == Init /\ [][Next]_ci
Q(pos) == IF pos = 0 THEN DcTab(In.Depth, In.Q) ELSE AcTab(In.Depth, In.Q)
W(pos) == IF In.Kind = 0 THEN Round2(Q(pos) * Weight(In.Level, In.Plane, In.Sz, pos), 5) ELSE Q(pos)
Conforms ==
  /\ Got.st = "ok"
  /\ \A i \in 1..TH(In.Sz), j \in 1..TW(In.Sz) :
       Got.m[i][j] = Scaled(In.Depth, In.Sz, W((i - 1) * TW(In.Sz) + j - 1), In.Coef)
=============================================================================
