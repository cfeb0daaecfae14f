---------------------------- MODULE TraceBitReader ----------------------------
(* Recorded reader sessions of the real bit reader, one initial state each;    *)
(* every recorded call must be the action of BitReader with that result.        *)
EXTENDS BitReader, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, k
vars == <<rvars, ci, k>>
In == Cases[ci].in
Ev == Cases[ci].out.ev

Init == /\ ci \in 1..Len(Cases)
        /\ data = Cases[ci].in.Data /\ pos = 0 /\ res = <<>> /\ fail = FALSE /\ k = 1
Matches(e) == IF fail' THEN e.o # "ok"
              ELSE /\ e.o = "ok" /\ e.p = pos' /\ e.r = res'
Consume == /\ k <= Len(In.Ops) /\ ~fail
           /\ k <= Len(Ev)
           /\ Do(In.Ops[k].Op, In.Ops[k].N)
           /\ Matches(Ev[k])
           /\ (In.Ops[k].Op = "leb" /\ ~fail') => Ev[k].x = (pos' - pos) \div 8
           /\ k' = k + 1 /\ ci' = ci
Finished == k > Len(In.Ops) \/ fail
Stop == Finished /\ UNCHANGED vars
Next == Consume \/ Stop
Spec == Init /\ [][Next]_vars
\* deadlock checking is on: an unexplained call leaves no action enabled
=============================================================================
