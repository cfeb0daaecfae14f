------------------------------- MODULE MCStream -------------------------------
(* Every conforming stream of a few OBUs out of a small alphabet: two sequence      *)
(* headers, shown and hidden frames of one and two tiles, header copies, tile groups  *)
(* of all, the first and the second tile, frames shown again, delimiters, padding.    *)
(* The streams end as GEN records, which the real parser then has to read alike.      *)
EXTENDS Stream, Json
CONSTANTS Length, Show
VARIABLES n
vars == <<stvars, n>>

RECURSIVE W(_, _)
W(k, v) == IF k = 0 THEN <<>> ELSE Append(W(k - 1, v \div 2), v % 2)
\* bits as bytes, the last one filled with zeros
Packed(b) == [i \in 1..((Len(b) + 7) \div 8) |->
               FoldLeft(LAMBDA x, j : 2 * x + (IF 8 * (i - 1) + j <= Len(b) THEN b[8 * (i - 1) + j] ELSE 0), 0, [j \in 1..8 |-> j])]
LebOf(k) == IF k < 128 THEN <<k>> ELSE <<128 + (k % 128), k \div 128>>
Obu(type, body) == LET b == <<8 * type + 2>> \o LebOf(Len(body)) \o body IN
                   LET f == LebOf(Len(b)) \o b IN LET u == LebOf(Len(f)) \o f IN LebOf(Len(u)) \o u

\* 72x8 or 72x16, every tool off
SeqBytes(height) == Packed(<<0, 0, 0, 0, 0, 0, 0>> \o W(5, 0) \o W(12, 0) \o W(5, 0) \o W(4, 6) \o W(4, 4) \o W(7, 71) \o W(5, height - 1)
                     \o <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>          \* ids, superblock, filter intra, edges, 4 tools, order hints
                     \o <<0, 0>> \o <<0, 0, 0>>                       \* screen content: off; super-resolution, cdef, restoration
                     \o <<0, 0, 0, 0, 0, 0, 0, 0>> \o <<1>>)          \* colours, grain; trailing bit
Rest(split, endOff) == <<0, endOff, 1, split>> \o (IF split = 1 THEN <<1, 0, 0>> ELSE <<>>) \o W(8, 0) \o <<0, 0, 0, 0, 0, 0>>
\* key: shown, replaces everything; intra only: hidden
KeyHdr(split) == <<0, 0, 0, 1, 0, 0>> \o Rest(split, 0)
HideKey(flags) == <<0, 0, 0, 0, 1, 1, 0, 0>> \o W(8, flags) \o Rest(0, 1)
IntraHdr(flags, split) == <<0, 1, 0, 0, 1, 0, 0, 0>> \o W(8, flags) \o Rest(split, 0)
Again(i) == <<1>> \o W(3, i)
Trailed(b) == Packed(b \o <<1>>)
One == <<178, 77>>
Two == <<1, 93, 61, 200>>           \* size 2, then the rest
Alphabet == <<
  Obu(SEQ_HDR, SeqBytes(8)), Obu(SEQ_HDR, SeqBytes(16)), Obu(TEMP_DELIM, <<>>),
  Obu(FRAME, Packed(KeyHdr(0)) \o One), Obu(FRAME, Packed(IntraHdr(6, 0)) \o One), Obu(FRAME, Packed(HideKey(65)) \o One),
  Obu(FRAME_HDR, Trailed(IntraHdr(9, 1))), Obu(REDUNDANT, Trailed(IntraHdr(9, 1))), Obu(FRAME_HDR, Trailed(KeyHdr(1))),
  Obu(TILE_GROUP, <<0>> \o Two \o <<9>>), Obu(TILE_GROUP, <<128>> \o One), Obu(TILE_GROUP, <<224>> \o One),
  Obu(FRAME_HDR, Trailed(Again(0))), Obu(FRAME_HDR, Trailed(Again(1))), Obu(PADDING, <<0, 18>>) >>

Init == StInit(<<>>) /\ n = 0
AtEnd == mode = "stream" /\ pos = 8 * Len(data)
\* the first OBU is a sequence header; the last choice ends the stream
More == /\ AtEnd /\ n < Length
        /\ \E k \in (IF n = 0 THEN {1, 2} ELSE 1..Len(Alphabet)) : data' = data \o Alphabet[k]
        /\ n' = n + 1
        /\ UNCHANGED <<pos, ph, h, sb128, sh, ext, ref, mode, e, o, st, tg, log>>
Step == /\ (AtEnd => n = Length) /\ ~StDone /\ ~Over(data, pos) /\ StNext /\ UNCHANGED n
Next == More \/ Step
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* only finished and repeated frames change what is kept, and only that and key frames what is valid
Finished == o' # <<>> /\ o'.tiles # <<>> /\ o'.tiles[Len(o'.tiles)].Num = -1
SlotsKept == [][st.slots' # st.slots => Finished]_vars
ValidKept == [][ref'.Valid # ref.Valid => Finished \/ mode = "fh"]_vars
\* what may be referred to is there
Backed == \A i \in 1..8 : ref.Valid[i] = 1 => st.slots[i] # <<>>
\* the tiles of one frame start from the same contexts, whatever the groups
Frames == FoldLeft(LAMBDA a, r : a \o r.Tiles, <<>>, log)
SameStart == \A i \in 1..Len(Frames) - 1 : Frames[i].Num >= 0 /\ Frames[i + 1].Num > Frames[i].Num => Frames[i].Cdf = Frames[i + 1].Cdf
\* only its last tile or a temporal delimiter closes a frame
Open(a, r) == IF r.Type = TEMP_DELIM THEN FALSE ELSE IF r.Tiles = <<>> THEN a ELSE r.Tiles[Len(r.Tiles)].Num >= 0
Closed == AtEnd => (FoldLeft(Open, FALSE, log) => st.seen)
Emit == Show = 1 /\ mode = "end" => PrintT("GEN " \o ToJson([Data |-> data]))
=============================================================================
