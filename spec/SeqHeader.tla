------------------------------ MODULE SeqHeader ------------------------------
(* sequence_header_obu() (AV1 5.5): one action per syntax structure.           *)
(* h is the header as far as it has been read, pos the cursor, ph the next      *)
(* structure.  Wide values (f(32), uvlc) are limbs.                             *)
EXTENDS Bits
VARIABLES data, pos, ph, h
svars == <<data, pos, ph, h>>

B(x) == x = 1
SHInit(d, p) == data = d /\ pos = p /\ ph = "general" /\ h = [e |-> 0]

General ==
  /\ ph = "general"
  /\ LET prof == F(data, pos, 3)
         still == Bit(data, pos + 3)
         red == Bit(data, pos + 4)
     IN /\ h' = [SeqProfile |-> prof, StillPicture |-> still, Reduced |-> red]
        /\ pos' = pos + 5
        /\ ph' = IF red = 1 THEN "reduced" ELSE "timing"
  /\ UNCHANGED data

NoTiming == [NumUnitsInDisplayTick |-> <<0, 0, 0, 0>>, TimeScale |-> <<0, 0, 0, 0>>,
             EqualPictureInterval |-> 0, NumTicks |-> <<0, 0, 0, 0>>]
NoDM == [DMPresent |-> 0, BufferDelayLen |-> 0, DecodingTick |-> <<0, 0, 0, 0>>, RemovalLen |-> 0, PresentLen |-> 0]

\* reduced_still_picture_header: one operating point, only its level is coded
Reduced ==
  /\ ph = "reduced"
  /\ h' = h @@ NoTiming @@ NoDM @@
            [TimingPresent |-> 0, DelayPresent |-> 0, OpCntMinus1 |-> 0,
             Ops |-> << [idc |-> 0, level |-> F(data, pos, 5), tier |-> 0, dm |-> 0, dbd |-> 0, ebd |-> 0,
                         low |-> 0, idp |-> 0, idd |-> 0] >>]
  /\ pos' = pos + 5
  /\ ph' = "size"
  /\ UNCHANGED data

\* timing_info(), decoder_model_info()
Timing ==
  /\ ph = "timing"
  /\ LET present == Bit(data, pos)
         p1 == pos + 1
         units == DescF(data, p1, 32)
         scale == DescF(data, p1 + 32, 32)
         eq == Bit(data, p1 + 64)
         ticks == IF eq = 1 THEN DescUvlc(data, p1 + 65) ELSE [l |-> <<0, 0, 0, 0>>, p |-> p1 + 65]
         dmp == Bit(data, ticks.p)
         q == ticks.p + 1
     IN IF present = 0
        THEN h' = h @@ NoTiming @@ NoDM @@ [TimingPresent |-> 0] /\ pos' = p1
        ELSE LET t == [TimingPresent |-> 1, NumUnitsInDisplayTick |-> units.l, TimeScale |-> scale.l,
                       EqualPictureInterval |-> eq, NumTicks |-> ticks.l]
             IN IF dmp = 0
                THEN h' = h @@ t @@ NoDM /\ pos' = q
                ELSE /\ h' = h @@ t @@ [DMPresent |-> 1, BufferDelayLen |-> F(data, q, 5),
                                        DecodingTick |-> DescF(data, q + 5, 32).l,
                                        RemovalLen |-> F(data, q + 37, 5), PresentLen |-> F(data, q + 42, 5)]
                     /\ pos' = q + 47
  /\ ph' = "opcount"
  /\ UNCHANGED data

OpCount ==
  /\ ph = "opcount"
  /\ h' = h @@ [DelayPresent |-> Bit(data, pos), OpCntMinus1 |-> F(data, pos + 1, 5), Ops |-> <<>>]
  /\ pos' = pos + 6
  /\ ph' = "op"
  /\ UNCHANGED data

\* one operating point
OpPoint ==
  /\ ph = "op" /\ Len(h.Ops) <= h.OpCntMinus1
  /\ LET idc == F(data, pos, 12)
         level == F(data, pos + 12, 5)
         p1 == pos + 17
         tier == IF level > 7 THEN Bit(data, p1) ELSE 0
         p2 == IF level > 7 THEN p1 + 1 ELSE p1
         dm == IF h.DMPresent = 1 THEN Bit(data, p2) ELSE 0
         p3 == IF h.DMPresent = 1 THEN p2 + 1 ELSE p2
         n == h.BufferDelayLen + 1
         dbd == IF dm = 1 THEN DescF(data, p3, n).l ELSE <<0, 0, 0, 0>>
         ebd == IF dm = 1 THEN DescF(data, p3 + n, n).l ELSE <<0, 0, 0, 0>>
         low == IF dm = 1 THEN Bit(data, p3 + 2 * n) ELSE 0
         p4 == IF dm = 1 THEN p3 + 2 * n + 1 ELSE p3
         idp == IF h.DelayPresent = 1 THEN Bit(data, p4) ELSE 0
         p5 == IF h.DelayPresent = 1 THEN p4 + 1 ELSE p4
         idd == IF idp = 1 THEN F(data, p5, 4) ELSE 0
     IN /\ h' = [h EXCEPT !.Ops = Append(@, [idc |-> idc, level |-> level, tier |-> tier, dm |-> dm, dbd |-> dbd,
                                             ebd |-> ebd, low |-> low, idp |-> idp, idd |-> idd])]
        /\ pos' = IF idp = 1 THEN p5 + 4 ELSE p5
        /\ ph' = IF Len(h.Ops) = h.OpCntMinus1 THEN "size" ELSE "op"
  /\ UNCHANGED data

\* frame size limits, frame ids, superblock size, intra tools
Size ==
  /\ ph = "size"
  /\ LET wb == F(data, pos, 4)
         hb == F(data, pos + 4, 4)
         p1 == pos + 8
         w == F(data, p1, wb + 1)
         ht == F(data, p1 + wb + 1, hb + 1)
         p2 == p1 + wb + hb + 2
         ids == IF h.Reduced = 1 THEN 0 ELSE Bit(data, p2)
         p3 == IF h.Reduced = 1 THEN p2 ELSE p2 + 1
         dl == IF ids = 1 THEN F(data, p3, 4) ELSE 0
         al == IF ids = 1 THEN F(data, p3 + 4, 3) ELSE 0
         p4 == IF ids = 1 THEN p3 + 7 ELSE p3
     IN /\ h' = h @@ [WidthBits |-> wb, HeightBits |-> hb, MaxWidth |-> w, MaxHeight |-> ht, FrameIds |-> ids,
                      DeltaIdLen |-> dl, AddIdLen |-> al, SB128 |-> Bit(data, p4), FilterIntra |-> Bit(data, p4 + 1),
                      IntraEdge |-> Bit(data, p4 + 2)]
        /\ pos' = p4 + 3
        /\ ph' = IF h.Reduced = 1 THEN "notools" ELSE "tools"
  /\ UNCHANGED data

SELECT == 2
NoTools ==
  /\ ph = "notools"
  /\ h' = h @@ [InterIntra |-> 0, Masked |-> 0, Warped |-> 0, DualFilter |-> 0, OrderHint |-> 0, JntComp |-> 0,
                RefMvs |-> 0, ScrChoose |-> 0, Scr |-> SELECT, IntMv |-> SELECT, OrderHintBits |-> 0]
  /\ ph' = "post"
  /\ UNCHANGED <<data, pos>>

Tools ==
  /\ ph = "tools"
  /\ LET oh == Bit(data, pos + 4)
         p1 == IF oh = 1 THEN pos + 7 ELSE pos + 5
         sc == Bit(data, p1)
         scr == IF sc = 1 THEN SELECT ELSE Bit(data, p1 + 1)
         p2 == IF sc = 1 THEN p1 + 1 ELSE p1 + 2
         ic == IF scr > 0 THEN Bit(data, p2) ELSE 0
         imv == IF scr = 0 \/ ic = 1 THEN SELECT ELSE Bit(data, p2 + 1)
         p3 == IF scr = 0 THEN p2 ELSE IF ic = 1 THEN p2 + 1 ELSE p2 + 2
     IN /\ h' = h @@ [InterIntra |-> Bit(data, pos), Masked |-> Bit(data, pos + 1), Warped |-> Bit(data, pos + 2),
                      DualFilter |-> Bit(data, pos + 3), OrderHint |-> oh,
                      JntComp |-> IF oh = 1 THEN Bit(data, pos + 5) ELSE 0,
                      RefMvs |-> IF oh = 1 THEN Bit(data, pos + 6) ELSE 0,
                      ScrChoose |-> sc, Scr |-> scr, IntMv |-> imv,
                      OrderHintBits |-> IF oh = 1 THEN F(data, p3, 3) + 1 ELSE 0]
        /\ pos' = IF oh = 1 THEN p3 + 3 ELSE p3
  /\ ph' = "post"
  /\ UNCHANGED data

Post ==
  /\ ph = "post"
  /\ h' = h @@ [SuperRes |-> Bit(data, pos), Cdef |-> Bit(data, pos + 1), Restoration |-> Bit(data, pos + 2)]
  /\ pos' = pos + 3
  /\ ph' = "color"
  /\ UNCHANGED data

\* color_config(): CP_BT_709 = 1, TC_SRGB = 13, MC_IDENTITY = 0 select 4:4:4 full range
ColorRec(d, p, prof) ==
  LET hbd == Bit(d, p)
      tb == IF prof = 2 /\ hbd = 1 THEN Bit(d, p + 1) ELSE 0
      p1 == IF prof = 2 /\ hbd = 1 THEN p + 2 ELSE p + 1
      depth == IF tb = 1 THEN 12 ELSE IF hbd = 1 THEN 10 ELSE 8
      mono == IF prof = 1 THEN 0 ELSE Bit(d, p1)
      p2 == IF prof = 1 THEN p1 ELSE p1 + 1
      desc == Bit(d, p2)
      p3 == p2 + 1
      cp == IF desc = 1 THEN F(d, p3, 8) ELSE 2
      tc == IF desc = 1 THEN F(d, p3 + 8, 8) ELSE 2
      mc == IF desc = 1 THEN F(d, p3 + 16, 8) ELSE 2
      p4 == IF desc = 1 THEN p3 + 24 ELSE p3
      base == [HighBitDepth |-> hbd, TwelveBit |-> tb, BitDepth |-> depth, Mono |-> mono,
               NumPlanes |-> IF mono = 1 THEN 1 ELSE 3, Desc |-> desc, CP |-> cp, TC |-> tc, MC |-> mc]
      srgb == cp = 1 /\ tc = 13 /\ mc = 0
      \* the remaining case: range, subsampling, sample position
      sx == IF prof = 0 THEN 1 ELSE IF prof = 1 THEN 0 ELSE IF depth = 12 THEN Bit(d, p4 + 1) ELSE 1
      sy == IF prof = 0 THEN 1 ELSE IF prof = 1 THEN 0
            ELSE IF depth = 12 THEN (IF sx = 1 THEN Bit(d, p4 + 2) ELSE 0) ELSE 0
      p5 == IF prof = 2 /\ depth = 12 THEN (IF sx = 1 THEN p4 + 3 ELSE p4 + 2) ELSE p4 + 1
      csp == IF sx = 1 /\ sy = 1 THEN F(d, p5, 2) ELSE 0
      p6 == IF sx = 1 /\ sy = 1 THEN p5 + 2 ELSE p5
  IN IF mono = 1
     THEN [c |-> base @@ [Range |-> Bit(d, p4), SubX |-> 1, SubY |-> 1, CSP |-> 0, SepUV |-> 0], p |-> p4 + 1]
     ELSE IF srgb
     THEN [c |-> base @@ [Range |-> 1, SubX |-> 0, SubY |-> 0, CSP |-> 0, SepUV |-> Bit(d, p4)], p |-> p4 + 1]
     ELSE [c |-> base @@ [Range |-> Bit(d, p4), SubX |-> sx, SubY |-> sy, CSP |-> csp, SepUV |-> Bit(d, p6)],
           p |-> p6 + 1]

Color ==
  /\ ph = "color"
  /\ LET r == ColorRec(data, pos, h.SeqProfile)
     IN /\ h' = h @@ [Color |-> r.c, FilmGrain |-> Bit(data, r.p)]
        /\ pos' = r.p + 1
  /\ ph' = "done"
  /\ UNCHANGED data

SHNext == General \/ Reduced \/ Timing \/ OpCount \/ OpPoint \/ Size \/ NoTools \/ Tools \/ Post \/ Color

\* the operating point the decoder runs at (choose_operating_point() = 0)
ChosenIdc == h.Ops[1].idc
------------------------------------------------------------------------------
(* Design invariants of a finished header.                                     *)
SHDone == ph = "done"
ColorConsistent ==
  SHDone => LET c == h.Color IN
    /\ c.BitDepth \in {8, 10, 12} /\ (c.BitDepth = 12 => h.SeqProfile = 2)
    /\ c.NumPlanes = (IF c.Mono = 1 THEN 1 ELSE 3)
    /\ (h.SeqProfile = 1 => c.Mono = 0)
    /\ (c.SubX = 0 => c.SubY = 0)
    /\ (h.SeqProfile = 0 /\ ~(c.CP = 1 /\ c.TC = 13 /\ c.MC = 0)) => (c.SubX = 1 /\ c.SubY = 1)
    /\ (c.CSP # 0 => c.SubX = 1 /\ c.SubY = 1)
    /\ (c.Mono = 1 => c.SepUV = 0)
OpsConsistent ==
  SHDone => /\ Len(h.Ops) = h.OpCntMinus1 + 1
            /\ \A i \in 1..Len(h.Ops) : /\ h.Ops[i].level \in 0..31 /\ h.Ops[i].idc \in 0..4095
                                        /\ (h.Ops[i].tier = 1 => h.Ops[i].level > 7)
                                        /\ (h.Ops[i].dm = 1 => h.DMPresent = 1)
                                        /\ (h.Ops[i].idp = 1 => h.DelayPresent = 1)
ToolsConsistent ==
  SHDone => /\ (h.OrderHint = 0 <=> h.OrderHintBits = 0) /\ h.OrderHintBits \in 0..8
            /\ (h.RefMvs = 1 \/ h.JntComp = 1 => h.OrderHint = 1)
            /\ (h.Scr = 0 => h.IntMv = SELECT)
            /\ (h.Reduced = 1 => h.FrameIds = 0 /\ h.OrderHint = 0)
=============================================================================
