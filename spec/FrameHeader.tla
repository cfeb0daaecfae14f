----------------------------- MODULE FrameHeader -----------------------------
(* uncompressed_header() (AV1 5.9): one action per syntax structure.            *)
(*   sh    the sequence header in force (record)                                *)
(*   ext   temporal and spatial id of the OBU                                    *)
(*   ref   the decoder's reference slots: Valid, Id, OrderHint, Type, CurId      *)
(*   h     the header read so far;  ph the next structure;  pos the cursor       *)
(* The phase "refused" is the explicit refusal of a feature this decoder does    *)
(* not implement: nothing may be delivered for such a frame.                     *)
EXTENDS TileInfo, SequencesExt
VARIABLES sh, ext, ref
fvars == <<data, pos, ph, h, sb128, sh, ext, ref>>

KEY == 0  INTER == 1  INTRA_ONLY == 2  SWITCH == 3
NoRef == 7       \* PRIMARY_REF_NONE
AllFrames == 255
SELECT == 2
Clip(lo, hi, x) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
B2I(b) == IF b THEN 1 ELSE 0

Put(r) == h' = r @@ h
Go(p, next) == pos' = p /\ ph' = next
Env == UNCHANGED <<data, sb128, sh, ext>>

IdLen == sh.AddIdLen + sh.DeltaIdLen + 3
HasPresTime == sh.DMPresent = 1 /\ sh.EqualPicture = 0

\* get_relative_dist(): signed distance of order hints, modulo 2^OrderHintBits
RelDist(a, b) == IF sh.OrderHint = 0 THEN 0
                 ELSE LET m == Pow2[sh.OrderHintBits - 1] IN ((a - b + m) % (2 * m)) - m

FHInit == /\ ph = "show" /\ h = [e |-> 0]

ReducedStill ==
  /\ ph = "show" /\ sh.Reduced = 1
  /\ Put([ShowExisting |-> 0, FrameType |-> KEY, Intra |-> TRUE, ShowFrame |-> 1, Showable |-> 0, ErrRes |-> TRUE,
          PresTime |-> <<0, 0, 0, 0>>])
  /\ Go(pos, "keyreset")
  /\ Env /\ UNCHANGED ref

\* an already decoded frame is shown again
ShowExisting ==
  /\ ph = "show" /\ sh.Reduced = 0 /\ Bit(data, pos) = 1
  /\ LET idx == F(data, pos + 1, 3)
         n == IF HasPresTime THEN sh.PresentLen + 1 ELSE 0
         p1 == pos + 4 + n
         m == IF sh.FrameIds = 1 THEN IdLen ELSE 0
         ty == ref.Type[idx + 1]
     IN /\ Put([ShowExisting |-> 1, MapIdx |-> idx, PresTime |-> DescF(data, pos + 4, n).l,
                DisplayId |-> F(data, p1, m), FrameType |-> ty, Refresh |-> IF ty = KEY THEN AllFrames ELSE 0])
        /\ Go(p1 + m, IF sh.FilmGrain = 1 THEN "refused" ELSE "done")
  /\ Env /\ UNCHANGED ref

FrameTypeAndVisibility ==
  /\ ph = "show" /\ sh.Reduced = 0 /\ Bit(data, pos) = 0
  /\ LET ty == F(data, pos + 1, 2)
         show == Bit(data, pos + 3)
         n == IF show = 1 /\ HasPresTime THEN sh.PresentLen + 1 ELSE 0
         p1 == pos + 4 + n
         showable == IF show = 1 THEN B2I(ty # KEY) ELSE Bit(data, p1)
         p2 == IF show = 1 THEN p1 ELSE p1 + 1
         implied == ty = SWITCH \/ (ty = KEY /\ show = 1)
     IN /\ Put([ShowExisting |-> 0, FrameType |-> ty, Intra |-> ty \in {KEY, INTRA_ONLY}, ShowFrame |-> show,
                Showable |-> showable, PresTime |-> DescF(data, pos + 4, n).l,
                ErrRes |-> IF implied THEN TRUE ELSE Bit(data, p2) = 1])
        /\ Go(IF implied THEN p2 ELSE p2 + 1, "keyreset")
  /\ Env /\ UNCHANGED ref

\* a shown key frame starts from an empty reference buffer
KeyReset ==
  /\ ph = "keyreset"
  /\ ref' = IF h.FrameType = KEY /\ h.ShowFrame = 1
            THEN [ref EXCEPT !.Valid = [i \in 1..8 |-> 0], !.OrderHint = [i \in 1..8 |-> 0]] ELSE ref
  /\ Go(pos, "tools") /\ UNCHANGED h /\ Env

ScreenContentTools ==
  /\ ph = "tools"
  /\ LET p1 == pos + 1
         scr == IF sh.Scr = SELECT THEN Bit(data, p1) ELSE sh.Scr
         p2 == IF sh.Scr = SELECT THEN p1 + 1 ELSE p1
         imv == IF scr = 0 THEN 0 ELSE IF sh.IntMv = SELECT THEN Bit(data, p2) ELSE sh.IntMv
         p3 == IF scr = 1 /\ sh.IntMv = SELECT THEN p2 + 1 ELSE p2
     IN /\ Put([DisableCdfUpdate |-> Bit(data, pos), Scr |-> scr, ForceIntMv |-> IF h.Intra THEN 1 ELSE imv])
        /\ Go(p3, "ids")
  /\ Env /\ UNCHANGED ref

\* current_frame_id and mark_ref_frames()
FrameIds ==
  /\ ph = "ids"
  /\ IF sh.FrameIds = 0
     THEN Put([FrameId |-> 0]) /\ Go(pos, "order") /\ ref' = [ref EXCEPT !.CurId = 0]
     ELSE LET id == F(data, pos, IdLen)
              d == Pow2[sh.DeltaIdLen + 2]
              wrap == Pow2[IdLen]
              \* the ids a slot may keep: the window of d+1 ids ending at id, modulo 2^idLen
              Stale(x) == IF id > d THEN x > id \/ x < id - d
                          ELSE x > id /\ x < wrap + id - d
          IN /\ Put([FrameId |-> id])
             /\ ref' = [ref EXCEPT !.Valid = [i \in 1..8 |-> IF Stale(ref.Id[i]) THEN 0 ELSE @[i]], !.CurId = id]
             /\ Go(pos + IdLen, "order")
  /\ Env

OrderAndPrimary ==
  /\ ph = "order"
  /\ LET coded == h.FrameType # SWITCH /\ sh.Reduced = 0
         ovr == IF h.FrameType = SWITCH THEN 1 ELSE IF sh.Reduced = 1 THEN 0 ELSE Bit(data, pos)
         p1 == IF coded THEN pos + 1 ELSE pos
         p2 == p1 + sh.OrderHintBits
         none == h.Intra \/ h.ErrRes
     IN /\ Put([SizeOverride |-> ovr, Order |-> F(data, p1, sh.OrderHintBits),
                Primary |-> IF none THEN NoRef ELSE F(data, p2, 3)])
        /\ Go(IF none THEN p2 ELSE p2 + 3, "removal")
  /\ Env /\ UNCHANGED ref

\* buffer_removal_time of every operating point this OBU belongs to
BufferRemoval ==
  /\ ph = "removal"
  /\ LET present == sh.DMPresent = 1 /\ Bit(data, pos) = 1
         InOp(o) == o.Dm = 1 /\ (o.Idc = 0 \/ (/\ (o.Idc \div Pow2[ext[1]]) % 2 = 1
                                              /\ (o.Idc \div Pow2[ext[2] + 8]) % 2 = 1))
         cnt == IF present THEN Len(SelectSeq(sh.Ops, InOp)) ELSE 0
     IN Go(pos + (IF sh.DMPresent = 1 THEN 1 ELSE 0) + cnt * (sh.RemovalLen + 1), "refresh")
  /\ UNCHANGED h /\ Env /\ UNCHANGED ref

RefreshFlags ==
  /\ ph = "refresh"
  /\ LET implied == h.FrameType = SWITCH \/ (h.FrameType = KEY /\ h.ShowFrame = 1)
         flags == IF implied THEN AllFrames ELSE F(data, pos, 8)
         p1 == IF implied THEN pos ELSE pos + 8
         hints == (~h.Intra \/ flags # AllFrames) /\ h.ErrRes /\ sh.OrderHint = 1
         n == sh.OrderHintBits
     IN /\ Put([Refresh |-> flags])
        /\ ref' = IF hints
                  THEN [ref EXCEPT !.Valid = [i \in 1..8 |-> IF F(data, p1 + (i - 1) * n, n) # ref.OrderHint[i]
                                                              THEN 0 ELSE @[i]]]
                  ELSE ref
        /\ Go(IF hints THEN p1 + 8 * n ELSE p1, IF h.Intra THEN "size" ELSE "refs")
  /\ Env

\* frame_size(), superres_params(), compute_image_size(), render_size()
FrameSize ==
  /\ ph = "size"
  /\ LET w0 == IF h.SizeOverride = 1 THEN F(data, pos, sh.WidthBits + 1) + 1 ELSE sh.MaxWidth + 1
         h0 == IF h.SizeOverride = 1 THEN F(data, pos + sh.WidthBits + 1, sh.HeightBits + 1) + 1 ELSE sh.MaxHeight + 1
         p1 == IF h.SizeOverride = 1 THEN pos + sh.WidthBits + sh.HeightBits + 2 ELSE pos
         use == IF sh.SuperRes = 1 THEN Bit(data, p1) ELSE 0
         p2 == IF sh.SuperRes = 1 THEN p1 + 1 ELSE p1
         denom == IF use = 1 THEN F(data, p2, 3) + 9 ELSE 8
         p3 == IF use = 1 THEN p2 + 3 ELSE p2
         w == (w0 * 8 + (denom \div 2)) \div denom
         diff == Bit(data, p3)
         p4 == IF diff = 1 THEN p3 + 33 ELSE p3 + 1
     IN /\ Put([UseSuperRes |-> use, Denom |-> denom, UpscaledWidth |-> w0, FrameWidth |-> w, FrameHeight |-> h0,
                MiCols |-> 2 * ((w + 7) \div 8), MiRows |-> 2 * ((h0 + 7) \div 8),
                RenderWidth |-> IF diff = 1 THEN F(data, p3 + 1, 16) + 1 ELSE w0,
                RenderHeight |-> IF diff = 1 THEN F(data, p3 + 17, 16) + 1 ELSE h0])
        /\ Go(p4, IF h.Intra THEN "intrabc" ELSE "interflags")
  /\ Env /\ UNCHANGED ref

IntraBc ==
  /\ ph = "intrabc"
  /\ LET coded == h.Scr = 1 /\ h.UpscaledWidth = h.FrameWidth
     IN /\ Put([IntraBc |-> IF coded THEN Bit(data, pos) ELSE 0])
        /\ Go(IF coded THEN pos + 1 ELSE pos, "endupdate")
  /\ Env /\ UNCHANGED ref

\* ref_frame_idx[] (frame_refs_short_signaling is not implemented)
InterRefs ==
  /\ ph = "refs"
  /\ LET short == IF sh.OrderHint = 1 THEN Bit(data, pos) ELSE 0
         p1 == IF sh.OrderHint = 1 THEN pos + 1 ELSE pos
         step == 3 + (IF sh.FrameIds = 1 THEN sh.DeltaIdLen + 2 ELSE 0)
     IN IF short = 1
        THEN Go(p1 + 6, "refused") /\ UNCHANGED h
        ELSE /\ Put([RefIdx |-> [i \in 1..7 |-> F(data, p1 + (i - 1) * step, 3)], IntraBc |-> 0])
             /\ Go(p1 + 7 * step, IF h.SizeOverride = 1 /\ ~h.ErrRes THEN "refused" ELSE "size")
  /\ Env /\ UNCHANGED ref

InterFlags ==
  /\ ph = "interflags"
  /\ LET hp == IF h.ForceIntMv = 1 THEN 0 ELSE Bit(data, pos)
         p1 == IF h.ForceIntMv = 1 THEN pos ELSE pos + 1
         sw == Bit(data, p1)
         p2 == IF sw = 1 THEN p1 + 1 ELSE p1 + 3
         mfmv == IF h.ErrRes \/ sh.RefMvs = 0 THEN 0 ELSE Bit(data, p2 + 1)
         p3 == IF h.ErrRes \/ sh.RefMvs = 0 THEN p2 + 1 ELSE p2 + 2
         hint == [i \in 1..7 |-> ref.OrderHint[h.RefIdx[i] + 1]]
     IN /\ Put([HighPrec |-> hp, Interp |-> IF sw = 1 THEN 4 ELSE F(data, p1 + 1, 2), MotionSwitch |-> Bit(data, p2),
                UseRefMvs |-> mfmv, OrderHints |-> hint,
                SignBias |-> [i \in 1..7 |-> B2I(RelDist(hint[i], h.Order) > 0)]])
        /\ Go(p3, "endupdate")
  /\ Env /\ UNCHANGED ref

\* disable_frame_end_update_cdf; loading a previous frame's context and motion field
\* projection are not implemented
EndUpdate ==
  /\ ph = "endupdate"
  /\ LET implied == sh.Reduced = 1 \/ h.DisableCdfUpdate = 1
     IN /\ Put([DisableEndUpdate |-> IF implied THEN 1 ELSE Bit(data, pos)])
        /\ Go(IF implied THEN pos ELSE pos + 1,
              IF h.Primary # NoRef \/ (~h.Intra /\ h.UseRefMvs = 1) THEN "refused" ELSE "tile")
  /\ Env /\ UNCHANGED ref

Tiles == TileNext /\ UNCHANGED <<sh, ext, ref>>

DeltaQ(p) == IF Bit(data, p) = 1 THEN [v |-> Su(data, p + 1, 7), p |-> p + 8] ELSE [v |-> 0, p |-> p + 1]
Quant ==
  /\ ph = "tile_done"
  /\ LET base == F(data, pos, 8)
         ydc == DeltaQ(pos + 8)
         planes == sh.NumPlanes > 1
         diff == planes /\ sh.SepUV = 1 /\ Bit(data, ydc.p) = 1
         p1 == IF planes /\ sh.SepUV = 1 THEN ydc.p + 1 ELSE ydc.p
         Skip0 == [v |-> 0, p |-> p1]
         udc == IF planes THEN DeltaQ(p1) ELSE Skip0
         uac == IF planes THEN DeltaQ(udc.p) ELSE Skip0
         vdc == IF diff THEN DeltaQ(uac.p) ELSE [udc EXCEPT !.p = uac.p]
         vac == IF diff THEN DeltaQ(vdc.p) ELSE [uac EXCEPT !.p = uac.p]
         p2 == vac.p
         qm == Bit(data, p2)
         qv == IF sh.SepUV = 1 THEN F(data, p2 + 9, 4) ELSE F(data, p2 + 5, 4)
     IN /\ Put([BaseQ |-> base, QYDc |-> ydc.v, QUDc |-> udc.v, QUAc |-> uac.v, QVDc |-> vdc.v, QVAc |-> vac.v,
                UsingQm |-> qm, QmY |-> IF qm = 1 THEN F(data, p2 + 1, 4) ELSE 0,
                QmU |-> IF qm = 1 THEN F(data, p2 + 5, 4) ELSE 0, QmV |-> IF qm = 1 THEN qv ELSE 0])
        /\ Go(IF qm = 0 THEN p2 + 1 ELSE IF sh.SepUV = 1 THEN p2 + 13 ELSE p2 + 9, "seg")
  /\ Env /\ UNCHANGED ref

SegBits == <<8, 6, 6, 6, 6, 3, 0, 0>>
SegMax == <<255, 63, 63, 63, 63, 7, 0, 0>>
SegSigned == <<TRUE, TRUE, TRUE, TRUE, TRUE, FALSE, FALSE, FALSE>>
\* the 64 features in coding order: k = 8*segment + feature
SegStep(acc, k) ==
  LET j == (k % 8) + 1
      n == SegBits[j]
      lim == SegMax[j]
      p == acc.p
      take(v, q) == [p |-> q, en |-> Append(acc.en, 1), val |-> Append(acc.val, v)]
  IN IF Bit(data, p) = 0 THEN [p |-> p + 1, en |-> Append(acc.en, 0), val |-> Append(acc.val, 0)]
     ELSE IF SegSigned[j] THEN take(Clip(-lim, lim, Su(data, p + 1, n + 1)), p + 2 + n)
     ELSE take(Clip(0, lim, F(data, p + 1, n)), p + 1 + n)
Idx64 == [k \in 1..64 |-> k - 1]
SegFeatures(p) == FoldLeft(SegStep, [p |-> p, en |-> <<>>, val |-> <<>>], Idx64)
Zeros64 == [k \in 1..64 |-> 0]
\* with no primary reference frame the map and the data are always updated
Seg ==
  /\ ph = "seg"
  /\ \E r \in {IF Bit(data, pos) = 1 THEN SegFeatures(pos + 1) ELSE [p |-> pos + 1, en |-> Zeros64, val |-> Zeros64]} :
     \E act \in {{k \in 1..64 : r.en[k] = 1}} :
       LET on == Bit(data, pos)
       IN /\ Put([SegOn |-> on, SegUpdateMap |-> on, SegTemporal |-> 0, SegUpdateData |-> on,
                  SegEn |-> r.en, SegVal |-> r.val,
                  SegPreSkip |-> B2I(\E k \in act : ((k - 1) % 8) >= 5),
                  SegLast |-> IF act = {} THEN 0 ELSE Max({(k - 1) \div 8 : k \in act})])
          /\ Go(r.p, "delta")
  /\ Env /\ UNCHANGED ref

Delta ==
  /\ ph = "delta"
  /\ LET qp == IF h.BaseQ > 0 THEN Bit(data, pos) ELSE 0
         p1 == IF h.BaseQ > 0 THEN pos + 1 ELSE pos
         p2 == IF qp = 1 THEN p1 + 2 ELSE p1
         lfcoded == qp = 1 /\ h.IntraBc = 0
         lp == IF lfcoded THEN Bit(data, p2) ELSE 0
         p3 == IF lfcoded THEN p2 + 1 ELSE p2
     IN /\ Put([DqPresent |-> qp, DqRes |-> IF qp = 1 THEN F(data, p1, 2) ELSE 0, DlfPresent |-> lp,
                DlfRes |-> IF lp = 1 THEN F(data, p3, 2) ELSE 0, DlfMulti |-> IF lp = 1 THEN Bit(data, p3 + 2) ELSE 0])
        /\ Go(IF lp = 1 THEN p3 + 3 ELSE p3, "lossless")
  /\ Env /\ UNCHANGED ref

\* get_qindex(1, segment)
QIndex(s) == IF h.SegOn = 1 /\ h.SegEn[8 * s + 1] = 1 THEN Clip(0, 255, h.BaseQ + h.SegVal[8 * s + 1]) ELSE h.BaseQ
LosslessSegs ==
  /\ ph = "lossless"
  /\ LET nodelta == h.QYDc = 0 /\ h.QUAc = 0 /\ h.QUDc = 0 /\ h.QVAc = 0 /\ h.QVDc = 0
         ll == [s \in 1..8 |-> B2I(QIndex(s - 1) = 0 /\ nodelta)]
         coded == \A s \in 1..8 : ll[s] = 1
         lv(q) == [s \in 1..8 |-> IF h.UsingQm = 0 THEN 0 ELSE IF ll[s] = 1 THEN 15 ELSE q]
     IN Put([Lossless |-> ll, CodedLossless |-> B2I(coded), AllLossless |-> B2I(coded /\ h.FrameWidth = h.UpscaledWidth),
             SegQm |-> <<lv(h.QmY), lv(h.QmU), lv(h.QmV)>>])
  /\ Go(pos, "lf")
  /\ Env /\ UNCHANGED ref

DefaultRefDeltas == <<1, 0, 0, 0, -1, 0, -1, -1>>
\* n optional su(7) updates of list v from index i on
Updates(p, v) ==
  FoldLeft(LAMBDA acc, i : IF Bit(data, acc.p) = 1
                           THEN [p |-> acc.p + 8, v |-> [acc.v EXCEPT ![i] = Su(data, acc.p + 1, 7)]]
                           ELSE [acc EXCEPT !.p = @ + 1],
           [p |-> p, v |-> v], [i \in 1..Len(v) |-> i])
LoopFilter ==
  /\ ph = "lf"
  /\ IF h.CodedLossless = 1 \/ h.IntraBc = 1
     THEN /\ Put([LfLevel |-> <<0, 0, 0, 0>>, LfSharp |-> 0, LfDelta |-> 1, LfRef |-> DefaultRefDeltas, LfMode |-> <<0, 0>>])
          /\ Go(pos, "cdef")
     ELSE LET a == F(data, pos, 6)
              b == F(data, pos + 6, 6)
              uv == sh.NumPlanes > 1 /\ (a # 0 \/ b # 0)
              p1 == IF uv THEN pos + 24 ELSE pos + 12
              dl == Bit(data, p1 + 3)
              upd == IF dl = 1 THEN Bit(data, p1 + 4) ELSE 0
              p2 == IF dl = 1 THEN p1 + 5 ELSE p1 + 4
              rd == Updates(p2, DefaultRefDeltas)
              md == Updates(rd.p, <<0, 0>>)
          IN /\ Put([LfLevel |-> <<a, b, IF uv THEN F(data, pos + 12, 6) ELSE 0, IF uv THEN F(data, pos + 18, 6) ELSE 0>>,
                     LfSharp |-> F(data, p1, 3), LfDelta |-> dl,
                     LfRef |-> IF upd = 1 THEN rd.v ELSE DefaultRefDeltas, LfMode |-> IF upd = 1 THEN md.v ELSE <<0, 0>>])
             /\ Go(IF upd = 1 THEN md.p ELSE p2, "cdef")
  /\ Env /\ UNCHANGED ref

Cdef ==
  /\ ph = "cdef"
  /\ IF h.CodedLossless = 1 \/ h.IntraBc = 1 \/ sh.Cdef = 0
     THEN /\ Put([CdefBits |-> 0, CdefDamp |-> 3, CdefY |-> <<<<0, 0>>>>, CdefUV |-> <<<<0, 0>>>>])
          /\ Go(pos, "lr")
     ELSE LET bits == F(data, pos + 2, 2)
              mono == sh.NumPlanes = 1
              step == IF mono THEN 6 ELSE 12
              Sec(v) == IF v = 3 THEN 4 ELSE v
              Str(p) == <<F(data, p, 4), Sec(F(data, p + 4, 2))>>
              n == Pow2[bits]
          IN /\ Put([CdefBits |-> bits, CdefDamp |-> F(data, pos, 2) + 3,
                     CdefY |-> [i \in 1..n |-> Str(pos + 4 + (i - 1) * step)],
                     CdefUV |-> [i \in 1..n |-> IF mono THEN <<0, 0>> ELSE Str(pos + 4 + (i - 1) * step + 6)]])
             /\ Go(pos + 4 + n * step, "lr")
  /\ Env /\ UNCHANGED ref

LrRemap == <<0, 3, 1, 2>>       \* NONE, SWITCHABLE, WIENER, SGRPROJ
LoopRestoration ==
  /\ ph = "lr"
  /\ IF h.AllLossless = 1 \/ h.IntraBc = 1 \/ sh.Restoration = 0
     THEN Put([LrType |-> <<0, 0, 0>>, UsesLr |-> 0, LrSize |-> <<>>]) /\ Go(pos, "txmode")
     ELSE LET ty == [i \in 1..3 |-> IF i <= sh.NumPlanes THEN LrRemap[F(data, pos + 2 * (i - 1), 2) + 1] ELSE 0]
              p1 == pos + 2 * sh.NumPlanes
              uses == \E i \in 1..3 : ty[i] # 0
              chroma == ty[2] # 0 \/ ty[3] # 0
              s1 == Bit(data, p1)
              more == sb128 = 0 /\ s1 = 1
              shift == IF sb128 = 1 THEN s1 + 1 ELSE IF s1 = 1 THEN 1 + Bit(data, p1 + 1) ELSE 0
              p2 == IF more THEN p1 + 2 ELSE p1 + 1
              uvc == sh.SubX = 1 /\ sh.SubY = 1 /\ chroma
              uvs == IF uvc THEN Bit(data, p2) ELSE 0
              sz == 256 \div Pow2[2 - shift]
          IN IF uses
             THEN /\ Put([LrType |-> ty, UsesLr |-> 1, LrSize |-> <<sz, sz \div Pow2[uvs], sz \div Pow2[uvs]>>])
                  /\ Go(IF uvc THEN p2 + 1 ELSE p2, "txmode")
             ELSE Put([LrType |-> ty, UsesLr |-> 0, LrSize |-> <<>>]) /\ Go(p1, "txmode")
  /\ Env /\ UNCHANGED ref

TxAndReferenceMode ==
  /\ ph = "txmode"
  /\ LET tx == IF h.CodedLossless = 1 THEN 0 ELSE IF Bit(data, pos) = 1 THEN 2 ELSE 1
         p1 == IF h.CodedLossless = 1 THEN pos ELSE pos + 1
     IN /\ Put([TxMode |-> tx, RefSelect |-> IF h.Intra THEN 0 ELSE Bit(data, p1)])
        /\ Go(IF h.Intra THEN p1 ELSE p1 + 1, "skipmode")
  /\ Env /\ UNCHANGED ref

\* skip_mode_params(): the nearest reference in the past and the nearest in the future,
\* or the two nearest in the past
Dist(i) == RelDist(h.OrderHints[i], h.Order)
Fwd == {i \in 1..7 : Dist(i) < 0}
Bwd == {i \in 1..7 : Dist(i) > 0}
\* the smallest index among the nearest
NearestFwd(S) == CHOOSE i \in S : \A j \in S : LET d == RelDist(h.OrderHints[j], h.OrderHints[i]) IN d < 0 \/ (d = 0 /\ i <= j)
NearestBwd(S) == CHOOSE i \in S : \A j \in S : LET d == RelDist(h.OrderHints[j], h.OrderHints[i]) IN d > 0 \/ (d = 0 /\ i <= j)
\* hints within a quarter of the range, so that distances between them do not wrap
NoWrap(S) == \A i \in S : LET d == Dist(i) m == Pow2[sh.OrderHintBits - 1] IN 2 * d < m /\ 2 * d > -m
\* first-best scan in index order, exactly as coded by the standard
RECURSIVE Scan(_, _, _, _)
Scan(i, best, cand, better) ==
  IF i > 7 THEN best
  ELSE Scan(i + 1, IF cand[i] /\ (best = 0 \/ better[i][best]) THEN i ELSE best, cand, better)
SkipMode ==
  /\ ph = "skipmode"
  /\ LET can == ~h.Intra /\ h.RefSelect = 1 /\ sh.OrderHint = 1
         later == [i \in 1..7 |-> [b \in 1..7 |-> RelDist(h.OrderHints[i], h.OrderHints[b]) > 0]]
         earlier == [i \in 1..7 |-> [b \in 1..7 |-> RelDist(h.OrderHints[i], h.OrderHints[b]) < 0]]
         fwd == Scan(1, 0, [i \in 1..7 |-> Dist(i) < 0], later)
         bwd == Scan(1, 0, [i \in 1..7 |-> Dist(i) > 0], earlier)
         sec == Scan(1, 0, [i \in 1..7 |-> RelDist(h.OrderHints[i], h.OrderHints[fwd]) < 0], later)
         other == IF fwd = 0 THEN 0 ELSE IF bwd # 0 THEN bwd ELSE sec
         allowed == can /\ fwd # 0 /\ other # 0
     IN /\ Put([SkipAllowed |-> allowed, SkipPresent |-> IF allowed THEN Bit(data, pos) ELSE 0,
                SkipFrames |-> IF allowed THEN <<MinOf(fwd, other), MaxOf(fwd, other)>> ELSE <<0, 0>>])
        /\ Go(IF allowed THEN pos + 1 ELSE pos, "warp")
  /\ Env /\ UNCHANGED ref

WarpAndTxSet ==
  /\ ph = "warp"
  /\ LET coded == ~h.Intra /\ ~h.ErrRes /\ sh.Warped = 1
         p1 == IF coded THEN pos + 1 ELSE pos
     IN /\ Put([Warped |-> IF coded THEN Bit(data, pos) ELSE 0, ReducedTx |-> Bit(data, p1), GmType |-> <<>>, Gm |-> <<>>])
        /\ Go(p1 + 1, "gm")
  /\ Env /\ UNCHANGED ref

(* global motion, one reference frame an action.  The previous parameters are     *)
(* the defaults, because a previous context is never loaded.                       *)
IdentityGm == <<0, 0, 65536, 0, 0, 65536>>
RECURSIVE SubExp(_, _, _, _)
SubExp(p, n, i, mk) ==
  LET b2 == IF i > 0 THEN 3 + i - 1 ELSE 3
      a == Pow2[b2]
  IN IF n <= mk + 3 * a THEN LET r == NsR(data, p, n - mk) IN [v |-> r.v + mk, p |-> r.p]
     ELSE IF Bit(data, p) = 1 THEN SubExp(p + 1, n, i + 1, mk + a)
     ELSE [v |-> F(data, p + 1, b2) + mk, p |-> p + 1 + b2]
InvRecenter(r, v) == IF v > 2 * r THEN v ELSE IF v % 2 = 1 THEN r - ((v + 1) \div 2) ELSE r + (v \div 2)
\* decode_signed_subexp_with_ref(-mx, mx + 1, r)
SignedSubExp(p, mx, r) ==
  LET n == 2 * mx + 1
      rr == r + mx
      s == SubExp(p, n, 0, 0)
  IN [p |-> s.p, v |-> (IF 2 * rr <= n THEN InvRecenter(rr, s.v) ELSE n - 1 - InvRecenter(n - 1 - rr, s.v)) - mx]
GmParam(p, ty, idx) ==       \* idx 0..5
  LET trans == idx < 2
      only == trans /\ ty = 1
      lowp == 1 - h.HighPrec
      abs == IF only THEN 9 - lowp ELSE 12
      prec == IF only THEN 3 - lowp ELSE IF trans THEN 6 ELSE 15
      scale == Pow2[16 - prec]
      round == IF idx % 3 = 2 THEN 65536 ELSE 0
      r == (IdentityGm[idx + 1] \div scale) - (IF idx % 3 = 2 THEN Pow2[prec] ELSE 0)
      s == SignedSubExp(p, Pow2[abs], r)
  IN [p |-> s.p, v |-> s.v * scale + round]
GmRef ==
  /\ ph = "gm" /\ ~h.Intra /\ Len(h.Gm) < 7
  /\ LET g == Bit(data, pos)
         z == Bit(data, pos + 1)
         t == Bit(data, pos + 2)
         ty == IF g = 0 THEN 0 ELSE IF z = 1 THEN 2 ELSE IF t = 1 THEN 1 ELSE 3
         p0 == IF g = 0 THEN pos + 1 ELSE IF z = 1 THEN pos + 2 ELSE pos + 3
         a2 == GmParam(p0, ty, 2)
         a3 == GmParam(a2.p, ty, 3)
         a4 == IF ty = 3 THEN GmParam(a3.p, ty, 4) ELSE [p |-> a3.p, v |-> -a3.v]
         a5 == IF ty = 3 THEN GmParam(a4.p, ty, 5) ELSE [p |-> a3.p, v |-> a2.v]
         p1 == IF ty >= 2 THEN a5.p ELSE p0
         a0 == GmParam(p1, ty, 0)
         a1 == GmParam(a0.p, ty, 1)
         v == IF ty = 0 THEN IdentityGm
              ELSE IF ty = 1 THEN <<a0.v, a1.v, 65536, 0, 0, 65536>>
              ELSE <<a0.v, a1.v, a2.v, a3.v, a4.v, a5.v>>
     IN /\ h' = [h EXCEPT !.GmType = Append(@, ty), !.Gm = Append(@, v)]
        /\ Go(IF ty = 0 THEN p0 ELSE a1.p, "gm")
  /\ Env /\ UNCHANGED ref
GmEnd ==
  /\ ph = "gm" /\ (h.Intra \/ Len(h.Gm) = 7)
  /\ IF h.Intra THEN Put([GmType |-> [i \in 1..7 |-> 0], Gm |-> [i \in 1..7 |-> IdentityGm]]) ELSE UNCHANGED h
  /\ Go(pos, "grain")
  /\ Env /\ UNCHANGED ref

\* film_grain_params()
NoGrain == [Apply |-> 0, Seed |-> 0, Y |-> <<>>, Cb |-> <<>>, Cr |-> <<>>, FromLuma |-> 0, Scaling |-> 0, Lag |-> 0,
            ArY |-> <<>>, ArCb |-> <<>>, ArCr |-> <<>>, ArShift |-> 0, Shift |-> 0, CbM |-> <<0, 0, 0>>, CrM |-> <<0, 0, 0>>,
            Overlap |-> 0, Clip |-> 0]
Bytes(p, n) == [i \in 1..n |-> F(data, p + 8 * (i - 1), 8)]
Points(p) == LET n == F(data, p, 4) IN [p |-> p + 4 + 16 * n,
                                       v |-> [i \in 1..n |-> <<F(data, p + 4 + 16 * (i - 1), 8), F(data, p + 12 + 16 * (i - 1), 8)>>]]
GrainBody(p, seed) ==
  LET y == Points(p)
      ny == Len(y.v)
      luma == IF sh.Mono = 1 THEN 0 ELSE Bit(data, y.p)
      p1 == IF sh.Mono = 1 THEN y.p ELSE y.p + 1
      nochroma == sh.Mono = 1 \/ luma = 1 \/ (sh.SubX = 1 /\ sh.SubY = 1 /\ ny = 0)
      None == [p |-> p1, v |-> <<>>]
      cb == IF nochroma THEN None ELSE Points(p1)
      cr == IF nochroma THEN None ELSE Points(cb.p)
      p2 == cr.p
      lag == F(data, p2 + 2, 2)
      nl == 2 * lag * (lag + 1)
      nc == IF ny > 0 THEN nl + 1 ELSE nl
      p3 == p2 + 4
      p4 == IF ny > 0 THEN p3 + 8 * nl ELSE p3
      hascb == luma = 1 \/ Len(cb.v) > 0
      hascr == luma = 1 \/ Len(cr.v) > 0
      p5 == IF hascb THEN p4 + 8 * nc ELSE p4
      p6 == IF hascr THEN p5 + 8 * nc ELSE p5
      p7 == p6 + 4
      Mul(q) == <<F(data, q, 8), F(data, q + 8, 8), F(data, q + 16, 9)>>
      p8 == IF Len(cb.v) > 0 THEN p7 + 25 ELSE p7
      p9 == IF Len(cr.v) > 0 THEN p8 + 25 ELSE p8
  IN [p |-> p9 + 2,
      g |-> [Apply |-> 1, Seed |-> seed, Y |-> y.v, Cb |-> cb.v, Cr |-> cr.v, FromLuma |-> luma,
             Scaling |-> F(data, p2, 2), Lag |-> lag, ArY |-> IF ny > 0 THEN Bytes(p3, nl) ELSE <<>>,
             ArCb |-> IF hascb THEN Bytes(p4, nc) ELSE <<>>, ArCr |-> IF hascr THEN Bytes(p5, nc) ELSE <<>>,
             ArShift |-> F(data, p6, 2), Shift |-> F(data, p6 + 2, 2),
             CbM |-> IF Len(cb.v) > 0 THEN Mul(p7) ELSE <<0, 0, 0>>, CrM |-> IF Len(cr.v) > 0 THEN Mul(p8) ELSE <<0, 0, 0>>,
             Overlap |-> Bit(data, p9), Clip |-> Bit(data, p9 + 1)]]
FilmGrain ==
  /\ ph = "grain"
  /\ IF sh.FilmGrain = 0 \/ (h.ShowFrame = 0 /\ h.Showable = 0)
     THEN Put([Grain |-> NoGrain]) /\ Go(pos, "done")
     ELSE IF Bit(data, pos) = 0
     THEN Put([Grain |-> NoGrain]) /\ Go(pos + 1, "done")
     ELSE LET seed == F(data, pos + 1, 16)
              upd == IF h.FrameType = INTER THEN Bit(data, pos + 17) ELSE 1
              p1 == IF h.FrameType = INTER THEN pos + 18 ELSE pos + 17
          IN IF upd = 0
             THEN UNCHANGED h /\ Go(p1 + 3, "refused")      \* load_grain_params()
             ELSE LET r == GrainBody(p1, seed) IN Put([Grain |-> r.g]) /\ Go(r.p, "done")
  /\ Env /\ UNCHANGED ref

FHNext == \/ ReducedStill \/ ShowExisting \/ FrameTypeAndVisibility \/ KeyReset \/ ScreenContentTools \/ FrameIds
          \/ OrderAndPrimary \/ BufferRemoval \/ RefreshFlags \/ FrameSize \/ IntraBc \/ InterRefs \/ InterFlags
          \/ EndUpdate \/ Tiles \/ Quant \/ Seg \/ Delta \/ LosslessSegs \/ LoopFilter \/ Cdef \/ LoopRestoration
          \/ TxAndReferenceMode \/ SkipMode \/ WarpAndTxSet \/ GmRef \/ GmEnd \/ FilmGrain
FHDone == ph \in {"done", "refused"}
Full == ph = "done" /\ h.ShowExisting = 0
------------------------------------------------------------------------------
(* What a finished header guarantees.                                          *)
VisibilityOk == Full => /\ (h.ShowFrame = 1 /\ h.FrameType = KEY => h.Refresh = AllFrames /\ h.Showable = 0)
                        /\ (h.FrameType = SWITCH => h.ErrRes /\ h.Refresh = AllFrames)
                        /\ (h.Intra \/ h.ErrRes => h.Primary = NoRef)
KeyForgets == Full => (h.FrameType = KEY /\ h.ShowFrame = 1 => ref.Valid = [i \in 1..8 |-> 0])
SizeOk == Full => /\ h.FrameWidth <= h.UpscaledWidth /\ (h.UseSuperRes = 0 => h.FrameWidth = h.UpscaledWidth)
                  /\ 2 * h.FrameWidth >= h.UpscaledWidth
                  /\ 4 * h.MiCols >= h.FrameWidth /\ 4 * (h.MiCols - 2) < h.FrameWidth
                  /\ 4 * h.MiRows >= h.FrameHeight /\ 4 * (h.MiRows - 2) < h.FrameHeight
LosslessOk == Full => /\ (h.CodedLossless = 1 => h.LfLevel = <<0, 0, 0, 0>> /\ h.CdefBits = 0 /\ h.TxMode = 0)
                      /\ (h.AllLossless = 1 => h.CodedLossless = 1 /\ h.UsesLr = 0)
                      /\ (h.BaseQ > 0 /\ h.SegOn = 0 => h.CodedLossless = 0)
SegOk == Full => \A k \in 1..64 : LET j == ((k - 1) % 8) + 1 IN
                   /\ (h.SegEn[k] = 0 => h.SegVal[k] = 0)
                   /\ h.SegVal[k] \in (IF SegSigned[j] THEN -SegMax[j]..SegMax[j] ELSE 0..SegMax[j])
IntraBcOk == Full => (h.IntraBc = 1 => h.Intra /\ h.Scr = 1 /\ h.LfLevel = <<0, 0, 0, 0>> /\ h.UsesLr = 0 /\ h.DlfPresent = 0)
SkipOk == Full => (h.SkipAllowed =>
            LET a == h.SkipFrames[1] b == h.SkipFrames[2] IN
            /\ a < b /\ (Dist(a) < 0 \/ Dist(b) < 0)
            /\ (NoWrap(1..7) =>
                  /\ Dist(a) # 0 /\ Dist(b) # 0
                  /\ IF Bwd # {} THEN {a, b} = {NearestFwd(Fwd), NearestBwd(Bwd)}
                     ELSE NearestFwd(Fwd) \in {a, b}))
GmOk == Full => \A i \in 1..7 : /\ (h.GmType[i] = 0 => h.Gm[i] = IdentityGm)
                                /\ (h.GmType[i] = 2 => h.Gm[i][5] = -h.Gm[i][4] /\ h.Gm[i][6] = h.Gm[i][3])
                                /\ \A k \in 3..6 : h.Gm[i][k] - IdentityGm[k] \in -8192..8192
GrainOk == Full => LET g == h.Grain IN
             /\ (g.Apply = 1 => sh.FilmGrain = 1)
             /\ (sh.Mono = 1 => g.Cb = <<>> /\ g.Cr = <<>> /\ g.FromLuma = 0)
             /\ (g.FromLuma = 1 => g.Cb = <<>> /\ g.Cr = <<>>)
             /\ Len(g.ArY) \in {0, 2 * g.Lag * (g.Lag + 1)}
=============================================================================
