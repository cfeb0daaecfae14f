------------------------------ MODULE TraceSymbol ------------------------------
(* Recorded runs of the real symbol decoder against SymbolRun.                   *)
EXTENDS SymbolRun, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, k
vars == <<symvars, ci, k>>
In == Cases[ci].in
Got == Cases[ci].out
Ops == In.Ops
Init == /\ ci \in 1..Len(Cases) /\ k = 0
        /\ data = In.Data /\ start = 8 * In.Start /\ sz = In.Sz /\ cdfs = In.Cdfs /\ adapt = (In.NoAdapt = 0)
        /\ ph = "init" /\ s = [v |-> 0, r |-> 32768, m |-> 0, p |-> 0] /\ last = 0
Next == /\ UNCHANGED ci
        /\ \/ Begin /\ UNCHANGED k
           \/ /\ k < Len(Ops) /\ k' = k + 1
              /\ CASE Ops[k + 1][1] = 0 -> Symbol(Ops[k + 1][2])
                   [] Ops[k + 1][1] = 1 -> Literal(Ops[k + 1][2])
                   [] OTHER -> NonSym(Ops[k + 1][2])
           \/ k = Len(Ops) /\ Leave /\ UNCHANGED k
           \/ ph \in {"left", "refused"} /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
CONSTANT Aspect
Step(x) == x.y = last /\ x.v = s.v /\ x.r = s.r /\ x.m = s.m /\ x.p = s.p
Decoding ==
  CASE ph = "run" -> IF k = 0 THEN Len(Got.steps) >= 1 /\ Step(Got.steps[1])
                     ELSE Len(Got.steps) > k /\ Step(Got.steps[k + 1])
    [] ph = "left" -> Got.st = "ok" /\ Got.p = s.p
    [] ph = "refused" -> Got.st # "ok"
    [] OTHER -> TRUE
Adaptation == ph \in {"left", "refused"} => Got.cdfs = cdfs
Conforms == IF Aspect = "decode" THEN Decoding ELSE Adaptation
=============================================================================
