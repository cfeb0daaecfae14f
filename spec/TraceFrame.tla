------------------------------ MODULE TraceFrame ------------------------------
(* Recorded intra streams: every picture shown, and every picture in a slot at    *)
(* the end, against the one the model decodes from the same headers and tiles.   *)
EXTENDS Frame, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Defaults == JsonDeserialize("DefaultCdfs.json")
VARIABLES ci, vStep, vFrame, vTile, vAgenda, vDec, vBlk, vPix, vPics, vBad, vPh
vars == <<ci, vStep, vFrame, vTile, vAgenda, vDec, vBlk, vPix, vPics, vBad, vPh>>
view == <<ci, vStep>>
In == Cases[ci].in
Got == Cases[ci].out

\* what the headers say of frame n, with its tile t
Params(n, t) ==
  LET f == In.Frames[n]
      u == f.Tiles[t]
  IN [Data |-> u.Data, R0 |-> u.R0, R1 |-> u.R1, C0 |-> u.C0, C1 |-> u.C1,
      Rows |-> f.Rows, Cols |-> f.Cols, Sb128 |-> In.Sb128, Mono |-> In.Mono, SubX |-> In.SubX, SubY |-> In.SubY, Depth |-> In.Depth,
      Fi |-> In.Fi, Edge |-> In.Edge, EnableCdef |-> In.EnableCdef,
      Seg |-> f.Seg, Pre |-> f.Pre, LastSeg |-> f.LastSeg, Feat |-> f.Feat, FData |-> f.FData, Val |-> f.Val,
      Lossless |-> f.Lossless, CodedLossless |-> f.CodedLossless, CdefBits |-> f.CdefBits,
      Dq |-> f.Dq, DqRes |-> f.DqRes, Dlf |-> f.Dlf, DlfRes |-> f.DlfRes, DlfMulti |-> f.DlfMulti,
      BaseQ |-> f.BaseQ, YDc |-> f.YDc, UDc |-> f.UDc, UAc |-> f.UAc, VDc |-> f.VDc, VAc |-> f.VAc, Qm |-> f.Qm, QmLevel |-> f.QmLevel,
      Sct |-> f.Sct, Bc |-> f.Bc, TxMode |-> f.TxMode, Reduced |-> f.Reduced, NoAdapt |-> f.NoAdapt,
      Lr |-> f.Lr, LrSize |-> f.LrSize, Sr |-> f.Sr, SrDenom |-> f.SrDenom, FrameH |-> f.H, UpW |-> f.UpW, W |-> f.W, Coef |-> 1,
      Level |-> f.Level, Sharp |-> f.Sharp, DeltaOn |-> f.DeltaOn, RefD |-> f.RefD, ModeD |-> f.ModeD,
      Damping |-> f.Damping, YPri |-> f.YPri, YSec |-> f.YSec, UvPri |-> f.UvPri, UvSec |-> f.UvSec]
I == Params(vFrame, vTile)
QSet(q) == IF q <= 20 THEN 1 ELSE IF q <= 60 THEN 2 ELSE IF q <= 120 THEN 3 ELSE 4
Cdfs(q) == [nm \in DOMAIN Defaults |-> IF Len(Defaults[nm]) = 1 THEN Defaults[nm][1] ELSE Defaults[nm][QSet(q)]]
Superblocks(J) ==
  LET n == Sb4(J)
      cols == (J.C1 - J.C0 + n - 1) \div n
      rows == (J.R1 - J.R0 + n - 1) \div n
  IN [i \in 1..(rows * cols) |-> [k |-> "sb", r |-> J.R0 + n * ((i - 1) \div cols), c |-> J.C0 + n * ((i - 1) % cols), b |-> SbSize(J)]]

Init == /\ ci \in 1..Len(Cases)
        /\ vStep = 0 /\ vFrame = 0 /\ vTile = 1 /\ vBad = FALSE /\ vPh = "run" /\ vBlk = <<>> /\ vPix = <<>> /\ vPics = <<>>
        /\ vDec = <<>> /\ vAgenda = <<>>

Head1 == vAgenda[1]
Rest == SubSeq(vAgenda, 2, Len(vAgenda))
\* a frame starts: nothing of an earlier one is used
DoFrame == /\ vFrame = Len(vPics) /\ vFrame < Len(In.Frames)
           /\ vFrame' = vFrame + 1 /\ vTile' = 1
           /\ \E J \in {Params(vFrame + 1, 1)} :
                /\ vDec' = TLCEval(TileStart(J, Cdfs(J.BaseQ)))
                /\ vPix' = TLCEval(Black(J))
                /\ vAgenda' = Superblocks(J)
           /\ UNCHANGED <<vBlk, vPics, vBad, vPh>>
\* more was read than the tile has: not a conforming stream
\* the next tile: its own symbols, tables, contexts and deltas
Exhausted == vDec.s.m < -14
DoTile == /\ vFrame > Len(vPics) /\ vAgenda = <<>> /\ vTile < Len(In.Frames[vFrame].Tiles)
          /\ vTile' = vTile + 1
          /\ \E J \in {Params(vFrame, vTile + 1)} :
               /\ vDec' = TLCEval([TileStart(J, Cdfs(J.BaseQ)) EXCEPT !.grid = vDec.grid, !.blk = vDec.blk, !.cd = vDec.cd, !.lr = vDec.lr])
               /\ vAgenda' = Superblocks(J)
          /\ vPh' = IF Exhausted THEN "free" ELSE vPh
          /\ UNCHANGED <<vFrame, vBlk, vPix, vPics, vBad>>
DoSb == /\ Head1.k = "sb"
        /\ vDec' = TLCEval(Superblock(I, vDec, Head1.r, Head1.c))
        /\ vAgenda' = <<[Head1 EXCEPT !.k = "part"]>> \o Rest
        /\ UNCHANGED <<vBlk, vPix, vPh>>
DoPart == /\ Head1.k = "part"
          /\ \E x \in {TLCEval(ReadPartition(I, vDec, Head1.r, Head1.c, Head1.b))} :
                /\ vDec' = x.d
                /\ vAgenda' = Children(I.Rows, I.Cols, Head1.r, Head1.c, Head1.b, x.y) \o Rest
                /\ vPh' = IF ChromaOk(I, x.y, Head1.b) THEN vPh ELSE "free"
          /\ UNCHANGED <<vBlk, vPix>>
DoBlock == /\ Head1.k = "block"
           /\ \E e \in {TLCEval(Block(I, vDec, Head1.r, Head1.c, Head1.b))} :
                \E b \in {e.blk[Len(e.blk)]} :
                  /\ vDec' = e
                  /\ vBlk' = b
                  /\ vPh' = IF b.bc = 1 THEN "free" ELSE vPh
                  /\ \E items \in {TxItems(I, b)} : vAgenda' = [i \in 1..Len(items) |-> [k |-> "tx", it |-> items[i]]] \o Rest
           /\ UNCHANGED vPix
DoTx == /\ Head1.k = "tx"
        /\ \E x \in {TLCEval(TxBlock(I, vDec, vBlk, Head1.it))} :
             /\ vDec' = x.d
             /\ vPh' = IF x.free THEN "free" ELSE vPh
             /\ vPix' = IF x.free THEN vPix ELSE TLCEval(Drawn(I, x.d, vBlk, vPix, x.ev))
        /\ vAgenda' = Rest
        /\ UNCHANGED vBlk
\* the picture is complete
Seen(pic) == /\ Len(Got.Shown) >= vFrame
             /\ Got.Shown[vFrame] = IF In.Frames[vFrame].Show = 1 THEN pic ELSE <<>>
DoPicture == /\ vFrame > Len(vPics) /\ vAgenda = <<>> /\ vTile = Len(In.Frames[vFrame].Tiles)
             /\ \E pic \in {TLCEval(Picture(I, vDec, vPix))} :
                  /\ vPics' = Append(vPics, pic)
                  /\ vBad' = (~Exhausted /\ ~Seen(pic))
             /\ vPh' = IF Exhausted THEN "free" ELSE vPh
             /\ UNCHANGED <<vFrame, vTile, vAgenda, vDec, vBlk, vPix>>
\* the end of the stream: all of it was read, and the slots hold what they were given
\* the frames asked for again
Asked == FoldLeft(LAMBDA s, f : s \o f.Again, <<>>, In.Frames)
EndOk == /\ Got.st = "ok" /\ Got.p = Got.n /\ Got.Early = 0 /\ Len(Got.Shown) = Len(vPics)
         /\ Len(Got.Again) = Len(Asked) /\ \A i \in 1..Len(Asked) : Got.Again[i] = vPics[Asked[i].Of]
         /\ \A i \in 1..8 : In.Own[i] > 0 => Got.Slots[i] = vPics[In.Own[i]]
DoEnd == /\ vFrame = Len(vPics) /\ vFrame = Len(In.Frames)
         /\ vBad' = ~EndOk /\ vPh' = "done"
         /\ UNCHANGED <<vFrame, vTile, vAgenda, vDec, vBlk, vPix, vPics>>
Next == \/ /\ vPh = "run" /\ ~vBad
           /\ IF vAgenda = <<>> THEN DoFrame \/ DoTile \/ DoPicture \/ DoEnd
              ELSE /\ DoSb \/ DoPart \/ DoBlock \/ DoTx
                   /\ UNCHANGED <<vFrame, vTile, vPics, vBad>>
           /\ vStep' = vStep + 1 /\ UNCHANGED ci
        \/ (vPh # "run" \/ vBad) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Conforms == ~vBad
=============================================================================
