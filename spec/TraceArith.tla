------------------------------ MODULE TraceArith ------------------------------
(* Recorded calls of the real helpers against Arith.  A case is one operation on *)
(* many argument lists; its output is the list of results.                       *)
EXTENDS Arith, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
Val(op, a) ==
  CASE op = "tilelog2" -> <<TileLog2(a[1], a[2])>>
    [] op = "ceillog2" -> <<CeilLog2(a[1])>>
    [] op = "floorlog2" -> <<IF a[1] = 0 THEN -1 ELSE Log2(a[1])>>
    [] op = "round2" -> <<Round2(a[1], a[2])>>
    [] op = "round2s" -> <<Round2Signed(a[1], a[2])>>
    [] op = "invrec" -> <<InverseRecenter(a[1], a[2])>>
    [] op = "clip3" -> <<Clip3(a[1], a[2], a[3])>>
    [] op = "clip1" -> <<Clip1(a[1], a[2])>>
    [] op = "negdei" -> <<NegDeinterleave(a[1], a[2], a[3])>>
    [] op = "cos" -> <<Cos128(a[1]), Sin128(a[1])>>
    [] op = "brev" -> <<Brev(a[1], a[2])>>
    [] op = "obmc" -> ObmcMask(a[1])
    [] op = "units" -> <<CountUnits(a[1], a[2])>>
    [] op = "ls" -> <<LsProduct(a[1], a[2])>>
    [] op = "minmax" -> <<MinI(a[1], a[2]), MaxI(a[1], a[2]), Abs(a[1]), B(a[1] # 0), B(a[1] > a[2]), B(<<a[1], a[2]>> = <<a[3], a[4]>>)>>
    [] op = "newmv" -> <<B(a[1] \in NewMvModes)>>
    [] op = "sort" -> SortRange(SubSeq(a, 3, Len(a)), a[1], a[2])
    [] op = "geom" -> LET b == a[1] IN <<BW(b), BH(b), BW(b) \div 4, BH(b) \div 4, Log2(BW(b)) - 2, Log2(BH(b)) - 2>>
    [] op = "subsize" -> <<Subsize(a[1], BW(a[2]))>>
    [] op = "subsamp" -> <<Subsampled(a[1], a[2], a[3])>>
In == Cases[ci].in
Got == Cases[ci].out
Conforms == /\ Got.st = "ok"
            /\ Len(Got.v) = Len(In.A)
            /\ \A i \in 1..Len(In.A) : Got.v[i] = Val(In.Op, In.A[i])
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
=============================================================================
