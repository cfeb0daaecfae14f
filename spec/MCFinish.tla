------------------------------- MODULE MCFinish -------------------------------
(* A flat frame stays flat through every filter, whatever their parameters (but for  *)
(* what the self-guided filter's reciprocals are off by, seen in high depths); the    *)
(* slots hold the last frame each was refreshed with, through any history.          *)
EXTENDS Finish
CONSTANTS Values, Sets, Weights0, Weights1, Depths, Steps
Few0 == {-96, 31}
Few1 == {-32, 95}
More0 == {-96, -50, 0, 31}
More1 == {-32, 0, 50, 95}
VARIABLES kind, frame, slots, hist
vars == <<kind, frame, slots, hist>>
Blk0 == [Size |-> 3, Tx |-> 0, UvTx |-> 0, Skip |-> 0, Ref |-> 0, Mode |-> 0, Seg |-> 0, Dlf |-> <<0, 0, 0, 0>>]
Rep(n, e) == [i \in 1..n |-> e]
Flat1(v, depth, super, type, set, q0, q1) ==
  LET unit == [Type |-> type, Coef |-> <<<<q0 % 8, q1 % 8, 15>>, <<5, -20, q0 % 16>>>>, Set |-> set, Xqd |-> <<q0, q1>>]
      s == v * P2[depth - 8]
      zero == <<0, 0, 0, 0>>
  IN [Depth |-> depth, SubX |-> 1, SubY |-> 1, Mono |-> 0, UpW |-> IF super = 1 THEN 14 ELSE 8, W |-> 8, H |-> 8, MiRows |-> 2, MiCols |-> 2, Super |-> super,
      Level |-> <<63, 40, 63, 63>>, Sharp |-> 0, DeltaOn |-> 0, SegOn |-> 0, UpdMap |-> 0, Multi |-> 0, RefD |-> Rep(8, 0), ModeD |-> <<0, 0>>,
      FOn |-> Rep(8, zero), FData |-> Rep(8, zero), Own |-> Rep(2, Rep(2, 0)), Prev |-> Rep(2, Rep(2, 0)), Blk |-> <<Blk0>>,
      Damping |-> 3, YPri |-> Rep(8, 15), YSec |-> Rep(8, 4), UvPri |-> Rep(8, 15), UvSec |-> Rep(8, 4), CdefIdx |-> <<<<0>>>>, Skips |-> Rep(2, Rep(2, 0)),
      Types |-> Rep(3, type), Unit |-> <<64, 32, 32>>, Units |-> Rep(3, <<<<unit>>>>),
      Px |-> <<Rep(8, Rep(8, s)), Rep(4, Rep(4, s)), Rep(4, Rep(4, s))>>, Want |-> s]
KeyAt(n) == n > 0 /\ n % 2 = 1       \* every other frame is a key frame
Mark(n, flags, show, idx) == [Show |-> show, Flags |-> flags, Idx |-> idx, N |-> n,
                              Of |-> slots[idx + 1], Again |-> show = 2 /\ KeyAt(slots[idx + 1])]
Init == \/ /\ kind = "given" /\ slots = <<>> /\ hist = <<>>
           /\ \E v \in Values, d \in Depths, su \in 0..1, t \in 0..2, st \in Sets, q0 \in Weights0, q1 \in Weights1 :
                (t # 2 => st = 0) /\ frame = Flat1(v, d, su, t, st, q0, q1)
        \/ kind = "slots" /\ slots = [i \in 1..8 |-> 0] /\ hist = <<>> /\ frame = <<>>
\* frames are just numbers here
Frames == /\ kind = "slots" /\ Len(hist) < Steps /\ UNCHANGED <<kind, frame>>
        /\ \E flags \in {0, 1, 3, 128, 129, 255}, show \in 0..2, idx \in {0, 1, 7} :
             LET m == Mark(Len(hist) + 1, flags, show, idx)
             IN /\ (show < 2 => idx = 0) /\ (show = 2 => flags = 0 /\ slots[idx + 1] > 0)
                /\ slots' = (IF show = 2 THEN (IF KeyAt(slots[idx + 1]) THEN Only(slots, idx + 1) ELSE slots) ELSE Refresh(slots, flags, m.N)) /\ hist' = Append(hist, m)
Next == Frames \/ (kind = "given" /\ kind' = "flat" /\ UNCHANGED <<frame, slots, hist>>)
Spec == Init /\ [][Next]_vars
StaysFlat == kind = "flat" => LET p == Picture(frame) IN \A k \in 1..3 : \A y \in 1..Len(p[k]) : \A x \in 1..Len(p[k][1]) : Abs(p[k][y][x] - frame.Want) <= (IF frame.Types[1] = 2 THEN frame.Want \div 800 + B(frame.Depth > 8) ELSE 0)
\* what the slot was given last: by a frame whose flags name it, or by a key frame shown again
Gave(i, n) == IF hist[n].Show = 2 THEN hist[n].Again ELSE (hist[n].Flags \div P2[i - 1]) % 2 = 1
LastOf(i) == LET s == {n \in 1..Len(hist) : Gave(i, n)}
             IN IF s = {} THEN 0 ELSE LET n == CHOOSE n \in s : \A m \in s : m <= n
                                      IN IF hist[n].Show = 2 THEN hist[n].Of ELSE n
Remembers == kind = "slots" => \A i \in 1..8 : slots[i] = LastOf(i)
=============================================================================
