------------------------------- MODULE Stream -------------------------------
(* The whole bitstream (AV1 annex B, 5.3 - 5.11.1): temporal units hold frame   *)
(* units hold OBUs; sequence and frame headers stay in force until replaced;     *)
(* tile groups hand out tiles until the frame is complete and its references     *)
(* are refreshed.  Payload syntax is delegated: SeqHeader for sequence headers,   *)
(* FrameHeader for frame headers, Symbol for the entropy decoder of a tile.      *)
(*                                                                               *)
(* `mode` is the structure being read:                                           *)
(*   stream, tu, fu, obu   the nesting levels          end   everything was read *)
(*   sq, fh                a header is being parsed    refused  a feature that   *)
(*   tg, tile              inside a tile group                  is not supported *)
(*   trail                 after an OBU's payload      bad   not a conforming    *)
(*                                                           stream: not judged  *)
EXTENDS FrameHeader
SQ == INSTANCE SeqHeader
SY == INSTANCE Symbol
CONSTANT TileLits            \* literal bits a tile's content is taken to be
VARIABLES mode,
          e,                 \* ends (bit positions) of temporal unit, frame unit, OBU
          o,                 \* the OBU being read
          st,                \* decoder state that survives OBUs
          tg,                \* the tile group being read
          log                \* what every finished OBU was
stvars == <<fvars, mode, e, o, st, tg, log>>

SEQ_HDR == 1  TEMP_DELIM == 2  FRAME_HDR == 3  TILE_GROUP == 4  METADATA == 5  FRAME == 6  REDUNDANT == 7
TILE_LIST == 8  PADDING == 15

NoSeq == [MaxWidth |-> 0, MaxHeight |-> 0, FrameIds |-> 0, OrderHintBits |-> 0, Idcs |-> <<>>, Mono |-> 0, SB128 |-> 0]
SeqSum(s) == [MaxWidth |-> s.MaxWidth, MaxHeight |-> s.MaxHeight, FrameIds |-> s.FrameIds, OrderHintBits |-> s.OrderHintBits,
              Idcs |-> [i \in 1..Len(s.Ops) |-> s.Ops[i].idc], Mono |-> s.Color.Mono, SB128 |-> s.SB128]
\* the parts of a sequence header that frame headers depend on
Flat(s) == [Reduced |-> s.Reduced, DMPresent |-> s.DMPresent, EqualPicture |-> s.EqualPictureInterval, PresentLen |-> s.PresentLen,
            RemovalLen |-> s.RemovalLen, FrameIds |-> s.FrameIds, DeltaIdLen |-> s.DeltaIdLen, AddIdLen |-> s.AddIdLen,
            Scr |-> s.Scr, IntMv |-> s.IntMv, OrderHint |-> s.OrderHint, OrderHintBits |-> s.OrderHintBits,
            Ops |-> [i \in 1..Len(s.Ops) |-> [Dm |-> s.Ops[i].dm, Idc |-> s.Ops[i].idc]],
            WidthBits |-> s.WidthBits, HeightBits |-> s.HeightBits, MaxWidth |-> s.MaxWidth, MaxHeight |-> s.MaxHeight,
            SuperRes |-> s.SuperRes, SB128 |-> s.SB128, RefMvs |-> s.RefMvs, NumPlanes |-> s.Color.NumPlanes,
            SepUV |-> s.Color.SepUV, Cdef |-> s.Cdef, Restoration |-> s.Restoration, SubX |-> s.Color.SubX,
            SubY |-> s.Color.SubY, Mono |-> s.Color.Mono, Warped |-> s.Warped, FilmGrain |-> s.FilmGrain]
NoFh == [FrameType |-> 0, ShowFrame |-> 0, Refresh |-> 0, FrameId |-> 0, Order |-> 0, BaseQ |-> 0, FrameWidth |-> 0, FrameHeight |-> 0]
FhSum(f) == IF f = <<>> THEN NoFh
            ELSE [FrameType |-> f.FrameType, ShowFrame |-> f.ShowFrame, Refresh |-> f.Refresh, FrameId |-> f.FrameId,
                  Order |-> f.Order, BaseQ |-> f.BaseQ, FrameWidth |-> f.FrameWidth, FrameHeight |-> f.FrameHeight]
Zero8 == [i \in 1..8 |-> 0]
NoRefs == [Valid |-> Zero8, Id |-> Zero8, OrderHint |-> Zero8, Type |-> Zero8, CurId |-> 0]

StInit(d) ==
  /\ data = d /\ pos = 0 /\ ph = "-" /\ h = [e |-> 0] /\ sb128 = 0 /\ sh = <<>> /\ ext = <<0, 0>> /\ ref = NoRefs
  /\ mode = "stream" /\ e = [tu |-> 0, fu |-> 0, ob |-> 0] /\ o = <<>>
  /\ st = [idc |-> 0, seq |-> <<>>, fh |-> <<>>, seen |-> FALSE, hdrBits |-> 0, cdf |-> 0, saved |-> 0, tiles |-> 0, want |-> 0, slots |-> [i \in 1..8 |-> <<>>]]
  /\ tg = <<>> /\ log = <<>>

Keep == UNCHANGED <<data, sb128, sh, ext, ref, ph, h>>
\* LEB128 sizes that do not fit 30 bits are never conforming here
Leb(p) == LET r == DescLeb(data, p) IN
          [v |-> IF r.l[1] > 0 \/ r.l[2] > 0 \/ r.l[3] >= 256 THEN -1 ELSE r.l[3] * 65536 + r.l[4], p |-> r.p]

TemporalUnit ==
  /\ mode = "stream"
  /\ IF pos = 8 * Len(data)
     THEN mode' = "end" /\ UNCHANGED <<pos, e>>
     ELSE LET z == Leb(pos) IN
          /\ pos' = z.p
          /\ IF z.v < 0 THEN mode' = "bad" /\ UNCHANGED e
             ELSE e' = [e EXCEPT !.tu = z.p + 8 * z.v] /\ mode' = "tu"
  /\ Keep /\ UNCHANGED <<o, st, tg, log>>
FrameUnit ==
  /\ mode = "tu"
  /\ IF pos >= e.tu
     THEN mode' = (IF pos = e.tu THEN "stream" ELSE "bad") /\ UNCHANGED <<pos, e>>
     ELSE LET z == Leb(pos) IN
          /\ pos' = z.p
          /\ IF z.v < 0 THEN mode' = "bad" /\ UNCHANGED e
             ELSE e' = [e EXCEPT !.fu = z.p + 8 * z.v] /\ mode' = "fu"
  /\ Keep /\ UNCHANGED <<o, st, tg, log>>
Unit ==
  /\ mode = "fu"
  /\ IF pos >= e.fu
     THEN mode' = (IF pos = e.fu THEN "tu" ELSE "bad") /\ UNCHANGED <<pos, e>>
     ELSE LET z == Leb(pos) IN
          /\ pos' = z.p
          /\ IF z.v < 0 THEN mode' = "bad" /\ UNCHANGED e
             ELSE e' = [e EXCEPT !.ob = z.p + 8 * z.v] /\ mode' = "obu"
  /\ Keep /\ UNCHANGED <<o, st, tg, log>>

Rec(ob, s) == [Type |-> ob.type, Ext |-> ob.ext, HasSize |-> ob.hasSize, Tid |-> ob.tid, Sid |-> ob.sid, Size |-> ob.size,
               Forbidden |-> ob.forbidden, Reserved |-> ob.reserved, Reserved3 |-> ob.reserved3,
               Seq |-> IF s.seq = <<>> THEN NoSeq ELSE SeqSum(s.seq), Fh |-> FhSum(s.fh), Tiles |-> ob.tiles, Shown |-> ob.shown, End |-> ob.end]
Done(ob, s) == log' = Append(log, Rec(ob, s)) /\ mode' = "fu"

\* obu_header(), obu_size and the decision whether the OBU is decoded at all
ObuHeader ==
  /\ mode = "obu"
  /\ LET x == Bit(data, pos + 5)
         hs == Bit(data, pos + 6)
         p1 == IF x = 1 THEN pos + 16 ELSE pos + 8
         z == Leb(p1)
         p2 == IF hs = 1 THEN z.p ELSE p1
         size == IF hs = 1 THEN z.v ELSE (e.ob - p1) \div 8
         type == F(data, pos + 1, 4)
         tid == IF x = 1 THEN F(data, pos + 8, 3) ELSE 0
         sid == IF x = 1 THEN F(data, pos + 11, 2) ELSE 0
         In(k) == (st.idc \div Pow2[k]) % 2 = 1
         drop == type # SEQ_HDR /\ type # TEMP_DELIM /\ st.idc # 0 /\ x = 1 /\ ~(In(tid) /\ In(sid + 8))
         ob == [type |-> type, ext |-> x, hasSize |-> hs, tid |-> tid, sid |-> sid, size |-> size,
                forbidden |-> Bit(data, pos), reserved |-> Bit(data, pos + 7),
                reserved3 |-> IF x = 1 THEN F(data, pos + 13, 3) ELSE 0, start |-> p2, tiles |-> <<>>, shown |-> <<>>, end |-> e.ob]
         skipped == drop \/ type \notin {SEQ_HDR, TEMP_DELIM, FRAME_HDR, REDUNDANT, FRAME, TILE_GROUP, TILE_LIST}
     IN /\ o' = ob
        /\ IF size < 0 \/ p2 + 8 * size # e.ob
           THEN mode' = "bad" /\ pos' = p2 /\ Keep /\ UNCHANGED <<st, tg, log>>
           ELSE IF skipped
           THEN Done(ob, st) /\ pos' = e.ob /\ Keep /\ UNCHANGED <<st, tg>>
           ELSE CASE type = SEQ_HDR ->
                       /\ mode' = "sq" /\ ph' = "general" /\ h' = [e |-> 0] /\ pos' = p2
                       /\ UNCHANGED <<data, sb128, sh, ext, ref, st, tg, log>>
                  [] type = TEMP_DELIM ->
                       /\ mode' = "trail" /\ st' = [st EXCEPT !.seen = FALSE] /\ pos' = p2 /\ Keep /\ UNCHANGED <<tg, log>>
                  [] type \in {FRAME_HDR, REDUNDANT, FRAME} ->
                       IF st.seq = <<>> \/ (type = FRAME /\ st.seen) \/ (type = REDUNDANT /\ ~st.seen)
                       THEN mode' = "bad" /\ pos' = p2 /\ Keep /\ UNCHANGED <<st, tg, log>>
                       ELSE IF st.seen        \* frame_header_copy()
                       THEN mode' = "trail" /\ pos' = p2 + st.hdrBits /\ Keep /\ UNCHANGED <<st, tg, log>>
                       ELSE /\ mode' = "fh" /\ ph' = "show" /\ h' = [e |-> 0] /\ pos' = p2
                            /\ ext' = <<tid, sid>> /\ sh' = Flat(st.seq) /\ sb128' = st.seq.SB128
                            /\ UNCHANGED <<data, ref, st, tg, log>>
                  [] type = TILE_GROUP ->
                       /\ mode' = (IF st.seen THEN "tg" ELSE "bad") /\ pos' = p2 /\ Keep /\ UNCHANGED <<st, tg, log>>
                  [] type = TILE_LIST ->
                       /\ mode' = "refused" /\ pos' = p2 /\ Keep /\ UNCHANGED <<st, tg, log>>
  /\ UNCHANGED e

Outer == UNCHANGED <<mode, e, o, st, tg, log>>
SqStep == mode = "sq" /\ ph # "done" /\ SQ!SHNext /\ Outer /\ UNCHANGED <<sb128, sh, ext, ref>>
SqEnd == /\ mode = "sq" /\ ph = "done"
         /\ st' = [st EXCEPT !.seq = h, !.idc = SQ!ChosenIdc]
         /\ mode' = "trail"
         /\ Keep /\ UNCHANGED <<pos, e, o, tg, log>>

FhStep == mode = "fh" /\ ~FHDone /\ FHNext /\ Outer
\* the frame header is complete: it is in force until the frame's last tile
FhEnd ==
  /\ mode = "fh" /\ FHDone /\ (ph = "refused" \/ h.ShowExisting = 0)
  /\ IF ph = "refused"
     THEN mode' = "refused" /\ UNCHANGED <<st, pos>>
     ELSE /\ st' = [st EXCEPT !.fh = h, !.seen = TRUE, !.hdrBits = pos - o.start, !.cdf = 0, !.want = 0]
          /\ IF o.type = FRAME THEN mode' = "tg" /\ pos' = 8 * ((pos + 7) \div 8) ELSE mode' = "trail" /\ UNCHANGED pos
  /\ Keep /\ UNCHANGED <<e, o, tg, log>>

\* a frame decoded before is shown: no tiles follow; a key frame is all that is left in the slots
WrapUp(cdf) == << [Num |-> -1, RowStart |-> 0, RowEnd |-> 0, ColStart |-> 0, ColEnd |-> 0,
                   QIndex |-> 0, Pos |-> 0, MaxBits |-> 0, Lit |-> 0, Cdf |-> cdf] >>
FhExisting ==
  /\ mode = "fh" /\ ph = "done" /\ h.ShowExisting = 1
  /\ LET i == h.MapIdx + 1
         x == st.slots[i]
         all(f) == [j \in 1..8 |-> f[i]]
     IN IF o.type # FRAME_HDR \/ ref.Valid[i] = 0 \/ x = <<>>
        THEN mode' = "bad" /\ UNCHANGED <<st, o, ref>>
        ELSE IF st.idc # 0      \* the choice of a layer to show
        THEN mode' = "refused" /\ UNCHANGED <<st, o, ref>>
        ELSE /\ mode' = "trail"
             /\ st' = [st EXCEPT !.fh = <<>>, !.seen = FALSE, !.slots = IF h.FrameType = KEY THEN all(@) ELSE @]
             /\ o' = [o EXCEPT !.tiles = WrapUp(0), !.shown = <<x.W, x.H, x.Mark, x.Mark>>]
             /\ ref' = IF h.FrameType = KEY
                       THEN [ref EXCEPT !.Valid = [j \in 1..8 |-> 1], !.Id = all(@), !.OrderHint = all(@), !.Type = all(@), !.CurId = ref.Id[i]]
                       ELSE ref
  /\ UNCHANGED <<pos, data, sb128, sh, ext, ph, h, e, tg, log>>

Trail ==
  /\ mode = "trail"
  /\ IF (o.size = 0 /\ pos = o.start) \/ pos < o.end
     THEN Done(o, st) /\ pos' = o.end
     ELSE mode' = "bad" /\ UNCHANGED <<pos, log>>
  /\ Keep /\ UNCHANGED <<e, o, st, tg>>

\* tile_group_obu(): which tiles this group carries
NTiles == st.fh.TileCols * st.fh.TileRows
GroupHeader ==
  /\ mode = "tg"
  /\ LET flag == IF NTiles > 1 THEN Bit(data, pos) ELSE 0
         k == st.fh.ColsLog2 + st.fh.RowsLog2
         a == IF flag = 1 THEN F(data, pos + 1, k) ELSE 0
         b == IF flag = 1 THEN F(data, pos + 1 + k, k) ELSE NTiles - 1
         p1 == IF NTiles = 1 THEN pos ELSE IF flag = 1 THEN pos + 1 + 2 * k ELSE pos + 1
     IN /\ pos' = 8 * ((p1 + 7) \div 8)
        /\ tg' = [next |-> a, last |-> b]
        /\ mode' = IF a = st.want /\ a <= b /\ b < NTiles /\ st.fh.CtxTile < NTiles THEN "tile" ELSE "bad"
  /\ Keep /\ UNCHANGED <<e, o, st, log>>

\* the wrap-up of a frame refreshes the reference slots; it is left out of the recording
\* of frames larger than 128x128
Small == st.fh.UpscaledWidth <= 128 /\ st.fh.FrameHeight <= 128
Kept(count) ==
  [i \in 1..8 |-> IF Small /\ (st.fh.Refresh \div Pow2[i - 1]) % 2 = 1
                  THEN [W |-> st.fh.UpscaledWidth, H |-> st.fh.FrameHeight, Mark |-> count] ELSE st.slots[i]]
Refreshed ==
  IF ~Small THEN ref
  ELSE LET on == [i \in 1..8 |-> (st.fh.Refresh \div Pow2[i - 1]) % 2 = 1]
           set(f, v) == [i \in 1..8 |-> IF on[i] THEN v ELSE f[i]]
       IN [ref EXCEPT !.Valid = set(@, 1), !.Id = set(@, st.fh.FrameId), !.OrderHint = set(@, st.fh.Order),
                      !.Type = set(@, st.fh.FrameType)]

Tile ==
  /\ mode = "tile"
  /\ LET last == tg.next = tg.last
         n == st.fh.TileSizeBytes
         coded == FoldLeft(LAMBDA x, i : x + F(data, pos + 8 * i, 8) * Pow2[8 * i], 0, [i \in 1..(IF n > 3 THEN 3 ELSE n) |-> i - 1])
         p1 == IF last THEN pos ELSE pos + 8 * n
         size == IF last THEN (o.end - pos) \div 8 ELSE coded + 1
         row == tg.next \div st.fh.TileCols
         col == tg.next % st.fh.TileCols
         count == st.tiles + 1
     IN IF size < 1 \/ p1 + 8 * size > o.end \/ (~last /\ n > 3 /\ F(data, pos + 24, 8) # 0)
        THEN mode' = "bad" /\ UNCHANGED <<pos, o, st, tg, log, ref>>
        ELSE \E s0 \in {SY!SymInit(data, p1, size)} : \E lit \in {SY!SymLit(data, s0, TileLits)} :
             IF ~SY!SymExitOk(lit.s)
             THEN mode' = "bad" /\ UNCHANGED <<pos, o, st, tg, log, ref>>
             ELSE LET saved == IF st.fh.DisableEndUpdate = 0 /\ tg.next = st.fh.CtxTile THEN count ELSE st.saved
                 rec == [Num |-> tg.next, RowStart |-> st.fh.RowStarts[row + 1], RowEnd |-> st.fh.RowStarts[row + 2],
                         ColStart |-> st.fh.ColStarts[col + 1], ColEnd |-> st.fh.ColStarts[col + 2],
                         QIndex |-> st.fh.BaseQ, Pos |-> s0.p, MaxBits |-> s0.m, Lit |-> lit.y, Cdf |-> st.cdf]
                 full == last /\ tg.last = NTiles - 1
                 cdf == IF full /\ st.fh.DisableEndUpdate = 0 THEN saved ELSE st.cdf
                 ends == IF full THEN WrapUp(cdf) ELSE <<>>
                 o2 == [o EXCEPT !.tiles = @ \o <<rec>> \o ends]
                 st2 == [st EXCEPT !.tiles = count, !.want = @ + 1, !.saved = saved, !.cdf = cdf, !.seen = IF full THEN FALSE ELSE @, !.slots = IF full THEN Kept(count) ELSE @]
             IN /\ o' = o2 /\ st' = st2 /\ pos' = p1 + 8 * size
                /\ ref' = IF full THEN Refreshed ELSE ref
                /\ tg' = [tg EXCEPT !.next = @ + 1]
                /\ IF last THEN Done(o2, st2) ELSE UNCHANGED <<mode, log>>
  /\ UNCHANGED <<data, sb128, sh, ext, ph, h, e>>

StNext == TemporalUnit \/ FrameUnit \/ Unit \/ ObuHeader \/ SqStep \/ SqEnd \/ FhStep \/ FhEnd \/ FhExisting \/ Trail \/ GroupHeader \/ Tile
StDone == mode \in {"end", "refused", "bad"}
------------------------------------------------------------------------------
\* cursor discipline: inside a conforming stream nothing is read outside its own unit
Nested == mode \in {"obu", "sq", "fh", "trail", "tg", "tile"} => e.ob <= e.fu /\ e.fu <= e.tu
\* a frame is only ever open between its header and its last tile
OpenOk == mode \in {"tile", "tg"} => st.seen
\* tiles of a group are consecutive (and groups too: other streams are not conforming)
GroupsOk == \A i \in 1..Len(log) : LET t == log[i].Tiles IN
              \A k \in 1..Len(t) - 1 : t[k + 1].Num = t[k].Num + 1 \/ t[k + 1].Num = -1
\* OBUs follow one another without gaps or overlap
Ordered == \A i \in 1..Len(log) - 1 : log[i].End < log[i + 1].End
=============================================================================
