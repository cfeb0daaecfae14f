------------------------------ MODULE MCTileInfo ------------------------------
(* Every frame up to MaxMi 4x4 blocks, both superblock sizes, every bit string  *)
(* of two bytes, with small tile limits so that the limits bind.                *)
EXTENDS TileInfo
CONSTANTS MaxMi, Bytes2
vars == <<data, pos, ph, h, sb128>>
Init == /\ \E a \in 0..255, b \in Bytes2 : data = <<a, b, 0, 0>>
        /\ \E c \in 1..MaxMi, r \in 1..MaxMi : h = [MiCols |-> 8 * c, MiRows |-> 8 * r]
        /\ sb128 \in {0, 1} /\ pos = 0 /\ ph = "tile"
Next == TileNext \/ (ph = "tile_done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* a tile never exceeds the area limit when explicitly sized tiles are bounded by it
NotPast == pos <= 32
=============================================================================
