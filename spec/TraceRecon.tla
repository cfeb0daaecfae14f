------------------------------ MODULE TraceRecon ------------------------------
(* Recordings of reconstruct: what one or two transform blocks add to a frame.  *)
EXTENDS Dequant, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
In == Cases[ci].in
Got == Cases[ci].out
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
Spec == Init /\ [][Next]_ci

\* the quantizer index of a segment
QIdx(b) == LET base == IF In.Dq = 1 THEN In.CurQ ELSE In.BaseQ
           IN IF In.SegOn = 1 /\ In.AltOn[b.Seg + 1] = 1 THEN Clip3(0, 255, base + In.AltQ[b.Seg + 1]) ELSE base
DcQ(b) == DcTab(In.Depth, QIdx(b) + <<In.YDc, In.UDc, In.VDc>>[b.Plane + 1])
AcQ(b) == AcTab(In.Depth, QIdx(b) + <<0, In.UAc, In.VAc>>[b.Plane + 1])
Level(b) == In.QmLevel[b.Plane + 1][b.Seg + 1]
Weighted(b, q, pos) == IF In.Qm = 1 /\ b.Ty < 9 /\ Level(b) < 15 THEN Round2(q * Weight(Level(b), b.Plane, b.Sz, pos), 5) ELSE q
Dq(b, pos, c) == Scaled(In.Depth, b.Sz, Weighted(b, IF pos = 0 THEN DcQ(b) ELSE AcQ(b), pos), c)

Coefs(b) ==
  LET z == Made([i \in 1..TH(b.Sz) |-> Made([j \in 1..TW(b.Sz) |-> 0])])
  IN FoldLeft(LAMBDA D, c : [D EXCEPT ![c[1] \div TW(b.Sz) + 1][(c[1] % TW(b.Sz)) + 1] = Dq(b, c[1], c[2])], z, b.Coef)
Base(y, x) == (In.B + In.P * y + In.Q * x) % P2[In.Depth]
Block(b) ==
  LET R == Inverse2D(b.Sz, b.Ty, b.Lossless, In.Depth, Coefs(b))
  IN [i \in 1..TxH(b.Sz) |-> [j \in 1..TxW(b.Sz) |-> Clip1(Base(b.Y + i - 1, b.X + j - 1) + R[i][j], In.Depth)]]
Conforms == /\ Got.st = "ok"
            /\ Got.other = 0
            /\ \A k \in 1..Len(In.Blocks) : Got.px[k] = Block(In.Blocks[k])
=============================================================================
