----------------------------- MODULE CdfContexts -----------------------------
(* Where probability contexts live and when they move (AV1 init_symbol,          *)
(* exit_symbol, frame_end_update_cdf, save_cdfs, load_cdfs, init_*_cdfs).        *)
(* A context maps every CDF table to a content token; Zero(x) is content x with  *)
(* its symbol counters cleared, IsCoeff(f) tells the coefficient tables.         *)
EXTENDS Naturals, Sequences
VARIABLES def,     \* four default contexts, one per quantizer set; non-coefficient tables agree
          cur,     \* the frame's contexts
          tile,    \* the tile's, adapted while it is decoded
          saved,   \* those of the context update tile
          mem      \* one per reference slot
ctxvars == <<def, cur, tile, saved, mem>>
QSet(q) == IF q <= 20 THEN 1 ELSE IF q <= 60 THEN 2 ELSE IF q <= 120 THEN 3 ELSE 4

InitNonCoeff(IsCoeff(_)) == /\ cur' = [f \in DOMAIN cur |-> IF IsCoeff(f) THEN cur[f] ELSE def[1][f]]
                /\ UNCHANGED <<def, tile, saved, mem>>
InitCoeff(q, IsCoeff(_)) == /\ cur' = [f \in DOMAIN cur |-> IF IsCoeff(f) THEN def[QSet(q)][f] ELSE cur[f]]
                /\ UNCHANGED <<def, tile, saved, mem>>
Load(i, Zero(_)) == /\ cur' = [f \in DOMAIN cur |-> Zero(mem[i][f])]
           /\ UNCHANGED <<def, tile, saved, mem>>
Save(i) == /\ mem' = [mem EXCEPT ![i] = cur] /\ UNCHANGED <<def, cur, tile, saved>>
TileStart == tile' = cur /\ UNCHANGED <<def, cur, saved, mem>>
\* reading symbols changes the tile's copy of the tables they are coded with, nothing else
AdaptTo(f, x, frozen) == /\ frozen => x = tile[f]
                         /\ tile' = [tile EXCEPT ![f] = x]
                         /\ UNCHANGED <<def, cur, saved, mem>>
\* the same for all of them at once
AdaptAllTo(x, frozen) == /\ frozen => x = tile
                         /\ tile' = x
                         /\ UNCHANGED <<def, cur, saved, mem>>
TileEnd(num, ctxTile, disabled) ==
  /\ saved' = IF ~disabled /\ num = ctxTile THEN tile ELSE saved
  /\ UNCHANGED <<def, cur, tile, mem>>
FrameEnd == cur' = saved /\ UNCHANGED <<def, tile, saved, mem>>
=============================================================================
