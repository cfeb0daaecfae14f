-------------------------------- MODULE MCCdef --------------------------------
(* What Cdef.tla promises, over its own input space: the direction search finds    *)
(* the direction of a stripe, and a difference never counts for more than it is.    *)
EXTENDS Cdef
CONSTANTS Diffs, Thrs, Dampings, Amps
VARIABLES kind, va, vb, vd
vars == <<kind, va, vb, vd>>
Init == /\ kind \in {"constrain", "stripe", "lines"}
        /\ va \in (IF kind = "constrain" THEN Diffs ELSE IF kind = "stripe" THEN Amps ELSE {0})
        /\ vb \in (IF kind = "constrain" THEN Thrs ELSE IF kind = "stripe" THEN 0..14 ELSE {0})
        /\ vd \in (IF kind = "constrain" THEN Dampings ELSE 0..7)
AllDiffs == 0..1023
AllThrs == 0..63
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* never more than the difference or the threshold, odd, and nothing from where damping ends
Bounded == kind = "constrain" => LET m == Constrain(va, vb, vd)
                                 IN /\ 0 <= m /\ m <= va /\ m <= vb /\ Constrain(-va, vb, vd) = -m
                                    /\ (vb > 0 /\ vd >= FloorLog(vb) /\ va >= vb * P2[vd - FloorLog(vb)] => m = 0)
                                    /\ (vb > 0 /\ va < P2[MaxI(0, vd - FloorLog(vb))] /\ va <= vb => m = va)
\* every sample is on one line of each direction; eleven or fifteen lines run at a slant, eight straight
Covered == kind = "lines" => /\ FoldLeft(LAMBDA s, l : s + l, 0, LineSize[vd + 1]) = 64
                             /\ LineCount(vd) = (IF vd \in {0, 4} THEN 15 ELSE IF vd \in {2, 6} THEN 8 ELSE 11)
                             /\ \A s \in {l \in 1..15 : LineSize[vd + 1][l] > 0} : 840 % LineSize[vd + 1][s] = 0
                             /\ \A i, j \in 0..7 : LET t == Directions[vd + 1][1] IN
                                  (vd % 2 = 0 /\ i + t[1] \in 0..7 /\ j + t[2] \in 0..7) => LineOf(vd, i, j) = LineOf(vd, i + t[1], j + t[2])
                             /\ \A i, j \in 0..7 : LET t == Directions[vd + 1][2] IN
                                  (i + t[1] \in 0..7 /\ j + t[2] \in 0..7) => LineOf(vd, i, j) = LineOf(vd, i + t[1], j + t[2])
                             /\ ChromaDir(0, 0, vd) = vd /\ ChromaDir(1, 1, vd) = vd
\* a stripe along d is found, unless it is too short to tell
Stripe == [i \in 1..8 |-> Made([j \in 1..8 |-> IF LineOf(vd, i - 1, j - 1) = vb THEN va ELSE 0])]
Found == (kind = "stripe" /\ vb < 15 /\ LineSize[vd + 1][vb + 1] >= 6) => LET st == Made(Stripe)
                                                                         r == Direction(st) IN r.dir = vd /\ r.var > 0
=============================================================================
