----------------------------- MODULE TraceDeblock -----------------------------
(* Recordings of the loop filter over small frames.                            *)
EXTENDS Deblock, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
In == Cases[ci].in
Got == Cases[ci].out
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
Spec == Init /\ [][Next]_ci
PW(p) == (In.MiCols * 4) \div (IF p > 0 THEN P2[In.SubX] ELSE 1)
PH(p) == (In.MiRows * 4) \div (IF p > 0 THEN P2[In.SubY] ELSE 1)
Sample(p, y, x) ==
  LET r == (y * (IF p > 0 THEN P2[In.SubY] ELSE 1)) \div 4
      k == (x * (IF p > 0 THEN P2[In.SubX] ELSE 1)) \div 4
  IN MinI(P2[In.Depth] - 1, In.B + 3 * p + In.D * ((7 * In.Own[r + 1][k + 1]) % 5) + ((In.P * y + In.Q * x) % In.M)
                            + In.PatX[(x % 64) + 1] + In.PatY[(y % 64) + 1])
Rows(p) == Made([y \in 1..PH(p) |-> Made([x \in 1..PW(p) |-> Sample(p, y - 1, x - 1)])])
Expected(p) == IF p > 0 /\ In.Mono = 1 THEN Rows(p) ELSE FilterPlane(In, p, Rows(p))
Conforms == Got.st = "ok" /\ Got.other = 0 /\ \A p \in 0..2 : Got.px[p + 1] = Expected(p)
=============================================================================
