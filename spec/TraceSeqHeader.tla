---------------------------- MODULE TraceSeqHeader ----------------------------
EXTENDS SeqHeader, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci
vars == <<svars, ci>>
Got == Cases[ci].out
Init == ci \in 1..Len(Cases) /\ SHInit(Cases[ci].in.Data, Cases[ci].in.Skip)
\* reading stops as soon as the data is exhausted
Next == /\ UNCHANGED ci
        /\ \/ ~Over(data, pos) /\ SHNext
           \/ (SHDone \/ Over(data, pos)) /\ UNCHANGED svars
Spec == Init /\ [][Next]_vars

\* the limb form of an operating point delay
Op(o) == [o EXCEPT !.dbd = IF o.dm = 1 THEN o.dbd ELSE <<0, 0, 0, 0>>, !.ebd = IF o.dm = 1 THEN o.ebd ELSE <<0, 0, 0, 0>>]
Conforms ==
  IF Over(data, pos) THEN Got.st # "ok"
  ELSE SHDone => /\ Got.st = "ok"
                 /\ Got.p = pos
                 /\ Got.idc = ChosenIdc
                 /\ Len(Got.Ops) = Len(h.Ops)
                 /\ \A i \in 1..Len(h.Ops) : Got.Ops[i] = Op(h.Ops[i])
                 /\ Got.Color = h.Color
                 /\ \A f \in DOMAIN h \ {"Ops", "Color", "TimingPresent"} : Got.h[f] = h[f]
=============================================================================
