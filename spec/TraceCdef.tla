------------------------------ MODULE TraceCdef ------------------------------
(* Recordings of CDEF over small frames.                                        *)
EXTENDS Cdef, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ci
In == Cases[ci].in
Got == Cases[ci].out
Init == ci \in 1..Len(Cases)
Next == UNCHANGED ci
Spec == Init /\ [][Next]_ci
Conforms == /\ Got.st = "ok" /\ Got.same = 1
            /\ LET b == CdefBlocks(In, In.Px[1]) IN \A p \in 1..Len(In.Px) : Got.px[p] = CdefPlane(In, In.Px[p], b, p - 1)
=============================================================================
