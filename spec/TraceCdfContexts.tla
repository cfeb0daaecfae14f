-------------------------- MODULE TraceCdfContexts --------------------------
(* Recorded lives of the real decoder's contexts against CdfContexts.            *)
EXTENDS CdfContexts, Integers, FiniteSets, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, k, obs
vars == <<ci, k, ctxvars, obs>>
In == Cases[ci].in
Got == Cases[ci].out
ZeroOf(x) == Got.zero[x]
CoeffTable(f) == Got.coeff[f] = 1
Init == /\ ci \in 1..Len(Cases) /\ k = 0
        /\ obs = Got.init
        /\ cur = Got.init[1] /\ tile = Got.init[2] /\ saved = Got.init[3]
        /\ mem = [i \in 0..7 |-> Got.init[4 + i]] /\ def = [q \in 1..4 |-> Got.init[11 + q]]
Seen(ch) == [c \in 1..Len(obs) |-> LET S == {j \in 1..Len(ch) : ch[j].c = c}
                                   IN IF S = {} THEN obs[c] ELSE ch[CHOOSE j \in S : TRUE].v]
Do(o) ==
  CASE o[1] = 0 -> InitNonCoeff(CoeffTable)
    [] o[1] = 1 -> InitCoeff(o[2], CoeffTable)
    [] o[1] = 2 -> Load(o[2], ZeroOf)
    [] o[1] = 3 -> Save(o[2])
    [] o[1] = 4 -> TileStart
    [] o[1] = 5 -> \E x \in {obs'[2][o[2] + 1]} :
                     AdaptTo(o[2] + 1, IF o[4] = 1 THEN tile[o[2] + 1] ELSE x, o[4] = 1)
    [] o[1] = 6 -> TileEnd(o[2], o[3], o[4] = 1)
    [] o[1] = 8 -> \E x \in {obs'[2]} : AdaptAllTo(IF o[4] = 1 THEN tile ELSE x, o[4] = 1)
    [] OTHER -> FrameEnd
Next == /\ UNCHANGED ci
        /\ IF k < Len(In.Ops) /\ k < Len(Got.steps)
           THEN k' = k + 1 /\ obs' = Seen(Got.steps[k + 1]) /\ Do(In.Ops[k + 1])
           ELSE UNCHANGED <<k, ctxvars, obs>>
Spec == Init /\ [][Next]_vars
Conforms == /\ Got.st = "ok"
            /\ obs[1] = cur /\ obs[2] = tile /\ obs[3] = saved
            /\ \A i \in 0..7 : obs[4 + i] = mem[i]
            /\ \A q \in 1..4 : obs[11 + q] = def[q]
=============================================================================
