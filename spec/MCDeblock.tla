------------------------------ MODULE MCDeblock ------------------------------
(* What Deblock.tla promises of a place of an edge, over small lines: 16 samples, the   *)
(* edge in the middle; and of levels and limits, over all of theirs.                   *)
EXTENDS Deblock
CONSTANTS Steps, Bends, Bumps, Lvls, Sharps, Depths
VARIABLES kind, va, vb, vd, ve, vf
vars == <<kind, va, vb, vd, ve, vf>>
\* a line: va before the edge, va + vb after it, sample vd of each side vf off; ve: depth
Some == {-9, -5, -2, -1, 0, 1, 2, 5, 9}
Many == -40..40
EdgeSize == {4, 8, 16}
Init == /\ vd = 0 /\ ve = 8 /\ vf = 0
        /\ \/ kind = "line?" /\ va \in Steps /\ vb \in Bends
           \/ kind = "level?" /\ va \in 0..63 /\ vb \in {-63, -20, 0, 5, 63}
Next == /\ UNCHANGED <<va, vb>>
        /\ \/ kind = "line?" /\ kind' = "line" /\ vd' \in 0..7 /\ ve' \in Depths /\ vf' \in Bumps
           \/ kind = "level?" /\ kind' = "level" /\ vd' \in 0..7 /\ ve' \in {-64, -1, 0, 40, 63} /\ vf' \in {-63, 0, 12}
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
C(sharp) == [Depth |-> ve, Sharp |-> sharp]
Line == Made([k \in 1..16 |-> Clip3(0, P2[ve] - 1, (IF k <= 8 THEN va ELSE va + vb) * P2[ve - 8] + (IF k = 8 - vd \/ k = 9 + vd THEN vf * (IF k > 8 THEN -1 ELSE 1) * P2[ve - 8] ELSE 0))])
Mirror(l) == Made([k \in 1..16 |-> l[17 - k]])
Plus(l, d) == Made([k \in 1..16 |-> l[k] + d])
Low(l) == FoldLeft(LAMBDA a, v : MinI(a, v), l[1], l)
High(l) == FoldLeft(LAMBDA a, v : MaxI(a, v), l[1], l)
Reach(plane, size) == IF size = 4 THEN 2 ELSE IF plane > 0 THEN 2 ELSE IF size = 8 THEN 3 ELSE 6
Got(l, plane, size, lvl, sharp) == FilterAt(C(sharp), l, 9, plane, size, lvl)
Combos == {<<p, s>> \in (0..1) \X EdgeSize : p = 1 => s < 16}

\* within the samples' range, and nothing beyond the reach of the filter
InReach == kind = "line" => \A l \in {Line} : \A c \in Combos, lvl \in Lvls, sharp \in Sharps :
             LET g == Got(l, c[1], c[2], lvl, sharp)
             IN \A k \in 1..16 : g[k] \in 0..(P2[ve] - 1) /\ ((k < 9 - Reach(c[1], c[2]) \/ k > 8 + Reach(c[1], c[2])) => g[k] = l[k])
\* a line without a step stays as it is, and so does a step above the limits
Stays == kind = "line" => \A l \in {Line} : \A c \in Combos, lvl \in Lvls, sharp \in Sharps :
           LET lim == Limit(C(sharp), lvl)
           IN (Low(l) = High(l) \/ Abs(l[9] - l[8]) * 2 > (2 * (lvl + 2) + lim) * P2[ve - 8]) => Got(l, c[1], c[2], lvl, sharp) = l
\* a smooth step is spread: the means stay between the samples, fall alike on both sides, and never leave a wider step
Spread == kind = "line" => \A l \in {Line} : \A n \in {<<2, 1, 3>>, <<3, 0, 3>>, <<6, 1, 4>>} :
            LET g == Wide(l, 9, n[1], n[2], n[3])
            IN /\ \A k \in 1..16 : g[k] \in Low(l)..High(l)
               /\ Wide(Mirror(l), 9, n[1], n[2], n[3]) = Mirror(g)
               /\ (vf = 0 => Abs(g[9] - g[8]) <= Abs(l[9] - l[8]))
\* brighter samples give a brighter result
Shifts == kind = "line" => \A l \in {Line} : (Low(l) > 20 * P2[ve - 8] /\ High(l) < 200 * P2[ve - 8]) =>
            \A c \in Combos, lvl \in Lvls : Got(Plus(l, 3), c[1], c[2], lvl, 0) = Plus(Got(l, c[1], c[2], lvl, 0), 3)
\* a sharper setting never filters what a softer one leaves
Sharper == kind = "line" => \A l \in {Line} : \A c \in Combos, lvl \in Lvls, a, b \in Sharps :
             (a < b /\ Got(l, c[1], c[2], lvl, a) = l /\ Got(l, c[1], c[2], lvl, b) # l) => Limit(C(b), lvl) > Limit(C(a), lvl)
\* levels and limits stay in their range; without deltas and segments the level is the frame's and the block's
LevelOk == kind = "level" =>
  LET b == [Dlf |-> <<vb, vb, 0, 0>>, Seg |-> 0, Ref |-> vd, Mode |-> 0]
      c(on, seg) == [Multi |-> 0, Level |-> <<va, va, va, va>>, SegOn |-> seg, FOn |-> <<<<1, 1, 1, 1>>>>, FData |-> <<<<vf, vf, vf, vf>>>>,
                     DeltaOn |-> on, RefD |-> [i \in 1..8 |-> ve], ModeD |-> <<vf, 0>>]
  IN /\ \A on, seg \in 0..1, pl \in 0..2, ps \in 0..1 : Level(c(on, seg), b, pl, ps) \in 0..63
     /\ Level(c(0, 0), b, 0, 0) = Clip3(0, 63, va + vb)
     /\ \A s \in 0..7 : Limit([Sharp |-> s], va) \in 1..63 /\ (s > 0 => Limit([Sharp |-> s], va) <= 9 - s)
=============================================================================
