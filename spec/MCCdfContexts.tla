---------------------------- MODULE MCCdfContexts ----------------------------
(* Frames of a few tiles: contexts start from the defaults or a reference slot,   *)
(* adapt in each tile, and the context update tile's become the frame's.  Content *)
(* tokens are <<value, counter>>.                                                 *)
EXTENDS CdfContexts, FiniteSets
CONSTANTS Slots, MaxTiles, MaxAdapt, MaxFrames
VARIABLES ph, num, ctxTile, disabled, adapted, frames, endOf, stored
vars == <<ctxvars, ph, num, ctxTile, disabled, adapted, frames, endOf, stored>>
Tables == 1..2
Coeff(f) == f = 2
Z(x) == <<x[1], 0>>
None == [f \in Tables |-> <<0, 0>>]
Init == /\ def = [q \in 1..4 |-> [f \in Tables |-> IF Coeff(f) THEN <<q, 0>> ELSE <<9, 0>>]]
        /\ cur = None /\ tile = None /\ saved = None /\ mem = [i \in Slots |-> None]
        /\ ph = "start" /\ num = 0 /\ ctxTile = 0 /\ disabled = FALSE /\ adapted = 0 /\ frames = 0
        /\ endOf = None /\ stored = {}
rest == <<num, adapted, frames, endOf, stored>>
Fresh1 == ph = "start" /\ frames < MaxFrames /\ InitNonCoeff(Coeff) /\ ph' = "q" /\ UNCHANGED <<ctxTile, disabled, rest>>
Fresh2 == /\ ph = "q" /\ \E q \in {0, 21, 61, 121} : InitCoeff(q, Coeff)
          /\ ph' = "tiles" /\ disabled' \in BOOLEAN /\ ctxTile' \in 0..(MaxTiles - 1) /\ UNCHANGED rest
FromRef == /\ ph = "start" /\ frames < MaxFrames /\ \E i \in stored : Load(i, Z)
           /\ ph' = "tiles" /\ disabled' \in BOOLEAN /\ ctxTile' \in 0..(MaxTiles - 1) /\ UNCHANGED rest
Start == /\ ph = "tiles" /\ num < MaxTiles /\ TileStart /\ ph' = "tile" /\ adapted' = 0
         /\ UNCHANGED <<num, ctxTile, disabled, frames, endOf, stored>>
Read(f) == /\ ph = "tile" /\ adapted < MaxAdapt /\ adapted' = adapted + 1
           /\ AdaptTo(f, <<tile[f][1] + 10, tile[f][2] + 1>>, FALSE)
           /\ UNCHANGED <<ph, num, ctxTile, disabled, frames, endOf, stored>>
End == /\ ph = "tile" /\ TileEnd(num, ctxTile, disabled) /\ num' = num + 1 /\ ph' = "tiles"
       /\ endOf' = IF num = ctxTile THEN tile ELSE endOf
       /\ UNCHANGED <<ctxTile, disabled, adapted, frames, stored>>
Wrap == /\ ph = "tiles" /\ num = MaxTiles /\ IF disabled THEN UNCHANGED ctxvars ELSE FrameEnd
        /\ ph' = "refs" /\ UNCHANGED <<num, ctxTile, disabled, adapted, frames, endOf, stored>>
Store == /\ ph = "refs" /\ \E i \in Slots \ stored : Save(i) /\ stored' = stored \cup {i}
         /\ UNCHANGED <<ph, num, ctxTile, disabled, adapted, frames, endOf>>
Done == /\ ph = "refs" /\ ph' = "start" /\ num' = 0 /\ frames' = frames + 1
        /\ UNCHANGED <<ctxvars, ctxTile, disabled, adapted, endOf, stored>>
Next == Fresh1 \/ Fresh2 \/ FromRef \/ Start \/ (\E f \in Tables : Read(f)) \/ End \/ Wrap \/ Store \/ Done
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* tiles are independent: each starts from the frame's contexts, whatever earlier tiles did
TileIndependent == ph = "tile" /\ adapted = 0 => tile = cur
\* a frame starts with clear counters, and keeps its contexts until its last tile is done
Clear == ph = "tiles" /\ num = 0 => \A f \in Tables : cur[f][2] = 0
\* what the frame leaves behind is the context update tile's end state, or its own start
Left == ph = "refs" => (IF disabled THEN \A f \in Tables : cur[f][2] = 0 ELSE cur = endOf)
DefaultsFixed == [][def' = def]_vars
=============================================================================
