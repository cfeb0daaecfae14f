-------------------------------- MODULE Finish --------------------------------
(* The end of a frame (AV1 7.4): the filters in their order, the reference slots    *)
(* (7.20) and what is shown (7.18).                                            *)
EXTENDS Deblock, Cdef, Restore

Planes(f) == 1..Len(f.Px)
PlaneW(w, p, f) == IF p = 1 THEN w ELSE (w + f.SubX) \div P2[f.SubX]
PlaneH(h, p, f) == IF p = 1 THEN h ELSE (h + f.SubY) \div P2[f.SubY]
Deblocked(f) == Made([p \in Planes(f) |-> IF f.Level[1] = 0 /\ f.Level[2] = 0 THEN f.Px[p] ELSE FilterPlane(f, p - 1, f.Px[p])])
Directed(f, deb) == LET b == CdefBlocks(f, deb[1]) IN Made([p \in Planes(f) |-> CdefPlane(f, deb[p], b, p - 1)])
\* super-resolution, or the visible part of the frame as it is
Resized(f, px) == Made([p \in Planes(f) |->
  LET h == PlaneH(f.H, p, f)
      uw == PlaneW(f.UpW, p, f)
      rows == SubSeq(px[p], 1, h)
      sx == IF p = 1 THEN 0 ELSE f.SubX
  IN IF f.Super = 0 THEN Made([y \in 1..h |-> SubSeq(rows[y], 1, uw)])
     ELSE UpPlane(rows, PlaneW(f.W, p, f), uw, (f.MiCols \div P2[sx]) * 4, f.Depth)])
Repaired(f, deb, cdef) == Made([p \in Planes(f) |->
  IF f.Types[p] = 0 THEN cdef[p]
  ELSE RestorePlane(deb[p], cdef[p], PlaneW(f.UpW, p, f), PlaneH(f.H, p, f), IF p = 1 THEN 0 ELSE f.SubX, IF p = 1 THEN 0 ELSE f.SubY,
                    f.Unit[p], f.Units[p], f.Depth)])
Picture(f) == LET deb == Deblocked(f)
                  cdef == Directed(f, deb)
              IN Repaired(f, Resized(f, deb), Resized(f, cdef))

\* what is kept of a frame for later ones
Kept(f, pic) == [Meta |-> f.Meta, Par |-> <<f.RefD, f.ModeD, f.FOn, f.FData>>, Px |-> pic, Tag |-> f.Tag, Mf |-> f.Mf,
                 Seg |-> Made([r \in 1..f.MiRows |-> Made([k \in 1..f.MiCols |->
                            IF f.SegOn = 1 /\ f.UpdMap = 0 THEN f.Prev[r][k] ELSE f.Blk[f.Own[r][k] + 1].Seg])])]
Empty == [Meta |-> <<>>, Par |-> <<>>, Px |-> <<>>, Tag |-> 0, Mf |-> <<>>, Seg |-> <<>>]
Refresh(slots, flags, k) == [i \in 1..8 |-> IF (flags \div P2[i - 1]) % 2 = 1 THEN k ELSE slots[i]]
Nothing == [i \in 1..8 |-> Empty]
\* f.Show: 0 kept back, 1 shown, 2 a kept frame is shown again, 3 it becomes the current one
Key(kept) == kept.Meta # <<>> /\ kept.Meta[9] = 0
\* a key frame that is shown again is all that is left
Only(slots, i) == [k \in 1..8 |-> slots[i]]
After(slots, f, pic) == IF f.Show >= 2 THEN (IF f.Show = 2 /\ Key(slots[f.Idx + 1]) THEN Only(slots, f.Idx + 1) ELSE slots) ELSE Refresh(slots, f.Flags, Kept(f, pic))
Shown(slots, f, pic) == IF f.Show >= 2 THEN slots[f.Idx + 1].Px ELSE IF f.Show = 1 THEN pic ELSE <<>>
=============================================================================
