------------------------------ MODULE TraceTile ------------------------------
(* Recorded decodings of one tile against the model: at every block and every     *)
(* transform block, and of everything left behind at the end.                     *)
(* agenda is what is still to be decoded, front first.                            *)
EXTENDS Coeffs, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Defaults == JsonDeserialize("DefaultCdfs.json")
CONSTANT Aspect
VARIABLES ci, step, d, agenda, k, cur, bad, ph
vars == <<ci, step, d, agenda, k, cur, bad, ph>>
view == <<ci, step>>
I == Cases[ci].in
Got == Cases[ci].out
Ev == Got.ev

QSet == IF I.BaseQ <= 20 THEN 1 ELSE IF I.BaseQ <= 60 THEN 2 ELSE IF I.BaseQ <= 120 THEN 3 ELSE 4
Cdfs == [nm \in DOMAIN Defaults |-> IF nm \in DOMAIN I.Cdf THEN I.Cdf[nm]
                                    ELSE IF Len(Defaults[nm]) = 1 THEN Defaults[nm][1] ELSE Defaults[nm][QSet]]
Superblocks ==
  LET n == Sb4(I)
      cols == (I.C1 - I.C0 + n - 1) \div n
      rows == (I.R1 - I.R0 + n - 1) \div n
  IN [i \in 1..(rows * cols) |-> [k |-> "sb", r |-> I.R0 + n * ((i - 1) \div cols), c |-> I.C0 + n * ((i - 1) % cols), b |-> SbSize(I)]]

On(a) == Aspect = a
\* what a block event shows, by property
Layout(e, b) == e.r = b.r /\ e.c = b.c /\ e.b = b.b
Modes(e, b) == /\ e.skip = b.skip /\ e.seg = b.seg /\ e.ll = b.ll
               /\ e.y = b.y /\ e.ay = b.ay
               /\ e.tx = b.tx
               /\ e.hc = 1 => e.uv = b.uv /\ e.palU = b.palU /\ e.palV = b.palV /\ e.mapUV = b.mapUV
               /\ e.fi[1] = b.fi[1] /\ (b.fi[1] = 1 => e.fi[2] = b.fi[2])
               /\ e.palY = b.palY /\ e.mapY = b.mapY
Filters(e, b) == /\ e.q = b.q /\ e.lf = b.lf
                 /\ I.EnableCdef = 1 /\ I.CodedLossless = 0 => e.cd = b.cd
BlockOk(e, b) == /\ e.k = "b" /\ e.r = b.r /\ e.c = b.c
                 /\ On("layout") => Layout(e, b) /\ e.hc = b.hc /\ e.av = b.av
                 /\ On("modes") => Modes(e, b)
                 /\ On("filters") => Filters(e, b)

EvOk(e, m) == /\ e.k = m.k
              /\ e.a = m.a
              /\ m.k = "rec" => \A i \in 1..Len(m.q) : m.q[i] = IF i <= Len(e.q) THEN e.q[i] ELSE 0

Init == /\ ci \in 1..Len(Cases)
        /\ step = 0 /\ k = 0 /\ bad = FALSE /\ ph = "run" /\ cur = <<>>
        /\ agenda = Superblocks
        /\ d = TLCEval(TileStart(I, Cdfs))

Head1 == agenda[1]
Rest == SubSeq(agenda, 2, Len(agenda))
DoSb == /\ Head1.k = "sb"
        /\ d' = TLCEval(Superblock(I, d, Head1.r, Head1.c))
        /\ agenda' = <<[Head1 EXCEPT !.k = "part"]>> \o Rest
        /\ UNCHANGED <<k, cur, bad, ph>>
DoPart == /\ Head1.k = "part"
          /\ \E x \in {TLCEval(ReadPartition(I, d, Head1.r, Head1.c, Head1.b))} :
                /\ d' = x.d
                /\ agenda' = Children(I.Rows, I.Cols, Head1.r, Head1.c, Head1.b, x.y) \o Rest
                /\ ph' = IF ChromaOk(I, x.y, Head1.b) THEN ph ELSE "free"
          /\ UNCHANGED <<k, cur, bad>>
DoBlock == /\ Head1.k = "block"
           /\ \E e \in {TLCEval(Block(I, d, Head1.r, Head1.c, Head1.b))} :
                /\ d' = e
                /\ cur' = e.blk[Len(e.blk)]
                /\ ph' = IF e.blk[Len(e.blk)].bc = 1 THEN "free" ELSE ph
                /\ bad' = (bad \/ (e.blk[Len(e.blk)].bc = 0 /\ (k >= Len(Ev) \/ ~BlockOk(Ev[k + 1], e.blk[Len(e.blk)]))))
                /\ agenda' = (IF I.Coef = 1 THEN [i \in 1..Len(TxItems(I, e.blk[Len(e.blk)])) |-> [k |-> "tx", it |-> TxItems(I, e.blk[Len(e.blk)])[i]]] ELSE <<>>) \o Rest
           /\ k' = k + 1
DoTx == /\ Head1.k = "tx"
        /\ \E x \in {TLCEval(TxBlock(I, d, cur, Head1.it))} :
             /\ d' = x.d
             /\ k' = k + Len(x.ev)
             /\ ph' = IF x.free THEN "free" ELSE ph
             /\ bad' = (bad \/ (~x.free /\ On("coeffs")
                                /\ (k + Len(x.ev) > Len(Ev) \/ \E j \in 1..Len(x.ev) : ~EvOk(Ev[k + j], x.ev[j]))))
        /\ agenda' = Rest
        /\ UNCHANGED cur
\* the end: nothing recorded is left over, and what the tile leaves behind
InFrame(r, c) == r < I.R1 /\ c < I.C1
Maps == \A r \in I.R0..(I.R1 - 1) : \A c \in I.C0..(I.C1 - 1) :
          LET b == Cell(d, r, c)
              m(f) == Got.maps[f][r - I.R0 + 1][c - I.C0 + 1]
          IN /\ On("layout") => m("b") = b.b
             /\ On("modes") => m("y") = b.y /\ m("skip") = b.skip /\ m("seg") = b.seg /\ m("tx") = b.tx
                               /\ m("palY") = Len(b.palY) /\ (b.hc = 1 => m("palUV") = Len(b.palU))
             /\ On("filters") => m("lf") = b.lf
Units == {[p |-> Got.lr[i].p, r |-> Got.lr[i].r, c |-> Got.lr[i].c, t |-> Got.lr[i].t, v |-> Got.lr[i].v] : i \in 1..Len(Got.lr)}
TxMap == \A i \in 1..Len(d.txs) :
           LET x == d.txs[i]
           IN \A y \in x.r..(x.r + TH(x.t) \div 4 - 1) : \A z \in x.c..(x.c + TW(x.t) \div 4 - 1) :
                y < I.Rows \div Pow2[SubY(I, x.p)] /\ z < I.Cols \div Pow2[SubX(I, x.p)]
                  => Got.lft[x.p + 1][y + 1][z + 1] = x.t
EndOk == /\ Got.st = "ok"
         /\ k = Len(Ev)
         /\ Got.sym = [v |-> d.s.v, r |-> d.s.r, m |-> d.s.m, p |-> d.s.p]
         /\ Maps
         /\ On("filters") => Units = d.lr
         /\ On("coeffs") => TxMap
DoEnd == /\ agenda = <<>>
         /\ bad' = (bad \/ ~EndOk)
         /\ ph' = "done"
         /\ UNCHANGED <<d, agenda, k, cur>>
Next == \/ /\ ph = "run" /\ ~bad
           /\ IF agenda = <<>> THEN DoEnd ELSE (DoSb \/ DoPart \/ DoBlock \/ DoTx)
           /\ step' = step + 1 /\ UNCHANGED ci
        \/ (ph # "run" \/ bad) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
