------------------------------- MODULE MCIntra -------------------------------
(* What IntraPred.tla promises of every mode, over edges of several shapes.      *)
EXTENDS IntraPred
CONSTANTS Sides, Heights, Seeds, Shapes, Depths, Deltas
VARIABLES kind, ew, eh, es, ep, ed, em
SomeDeltas == {-3, 0, 2}
AllDeltas == -3..3
vars == <<kind, ew, eh, es, ep, ed, em>>
\* em: mode 0..12, or 13..17 the recursive filters; em = -1: the edges themselves
Init == kind = "seed" /\ ew \in Sides /\ eh \in Heights /\ es \in Seeds /\ ep \in Shapes /\ ed = 8 /\ em = 0
Next == kind = "seed" /\ kind' = "edge" /\ UNCHANGED <<ew, eh, es, ep>> /\ ed' \in Depths /\ em' \in -1..17
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Top == P2[ed] - 1
Noise(k) == ((es * 131 + k * k * 37 + k * 11) % 251) * P2[ed - 8]
\* sample k of the L-shaped edge: -h..-1 up the left, 0 the corner, 1..w along the top
Shape(k) == CASE ep = "flat" -> (es * 85) * P2[ed - 8]
              [] ep = "noise" -> Noise(k + 100)
              [] ep = "mild" -> (100 + ((es + k * 7) % 5)) * P2[ed - 8]
              [] ep = "step" -> IF k > es - 2 THEN Top ELSE 0
              [] ep = "ramp" -> Clip3(0, Top, (120 + k * (es - 1)) * P2[ed - 8])
A0 == Made([k \in 1..(ew + eh + 2) |-> IF k = 1 THEN 0 ELSE Shape(k - 2)])
L0 == Made([k \in 1..(ew + eh + 2) |-> IF k = 1 THEN 0 ELSE Shape(2 - k)])
Plus(e, d) == Made([k \in 1..Len(e) |-> IF k = 1 THEN 0 ELSE e[k] + d])
Used(e) == {e[k] : k \in 2..Len(e)}
LowOf(s) == CHOOSE v \in s : \A u \in s : v <= u
HighOf(s) == CHOOSE v \in s : \A u \in s : v >= u
Low == LowOf(Used(A0) \cup Used(L0))
High == HighOf(Used(A0) \cup Used(L0))
Mode == IF em > 12 THEN 0 ELSE em
Fi == IF em > 12 THEN em - 13 ELSE -1
Ads == IF Directional(Mode) /\ Fi < 0 THEN Deltas ELSE {0}
Filters == IF Directional(Mode) /\ Fi < 0 THEN {<<0, 0>>, <<1, 0>>, <<1, 1>>} ELSE {<<0, 0>>}
Fits == (em > 12 => ew <= 32 /\ eh <= 32)
Of(A, L, ad, f) == Predict(Mode, ad, Fi, A, L, ew, eh, 1, 1, 64, 64, f[1], f[2], ed)
Turn(p) == [j \in 1..ew |-> [i \in 1..eh |-> p[i][j]]]
Modes == kind = "edge" /\ em >= 0 /\ Fits
All(p, ok(_)) == \A i \in 1..eh : \A j \in 1..ew : ok(p[i][j])

\* a block of that many rows and columns, of samples of the depth
Shaped == Modes => \A A \in {A0}, L \in {L0}, ad \in Ads, f \in Filters :
            LET p == Of(A, L, ad, f) IN Len(p) = eh /\ (\A i \in 1..eh : Len(p[i]) = ew) /\ All(p, LAMBDA v : v \in 0..Top)
\* even edges predict an even block
Even == (Modes /\ ep = "flat") => \A A \in {A0}, L \in {L0}, ad \in Ads, f \in Filters : All(Of(A, L, ad, f), LAMBDA v : v = Shape(0))
\* only what may overshoot leaves the range of the edges: the recursive filters and doubled edges
Between == (Modes /\ em <= 12) => \A A \in {A0}, L \in {L0}, ad \in Ads, f \in Filters :
             (f[1] = 0 \/ ew + eh > 16) => LET lo == Low hi == High IN All(Of(A, L, ad, f), LAMBDA v : v \in lo..hi)
\* brighter edges predict a brighter block, by as much
Brighter == (Modes /\ ep = "mild") => \A A \in {A0}, L \in {L0}, ad \in Ads, f \in Filters :
              \A p \in {Of(A, L, ad, f)}, q \in {Of(Plus(A, 16), Plus(L, 16), ad, f)} : \A i \in 1..eh, j \in 1..ew : q[i][j] = p[i][j] + 16
\* turned edges predict the turned block in the turned mode
Turned == (Modes /\ em \in {0, 1, 2, 8, 9, 10, 11}) => \A A \in {A0}, L \in {L0} :
  LET m == CASE em = 1 -> 2 [] em = 2 -> 1 [] em = 8 -> 7 [] em = 10 -> 11 [] em = 11 -> 10 [] OTHER -> em
  IN \A ad \in (IF em = 8 THEN Deltas ELSE {0}), f \in Filters :
       Predict(m, -ad, -1, L, A, eh, ew, 1, 1, 64, 64, f[1], f[2], ed) = Turn(Of(A, L, ad, f))
\* what Paeth gives is one of the three samples it chooses from
OneOfThree == (Modes /\ em = 12) => \A A \in {A0}, L \in {L0} : \A p \in {Of(A, L, 0, <<0, 0>>)} :
                \A i \in 1..eh, j \in 1..ew : p[i][j] \in {At(A, j - 1), At(L, i - 1), At(A, -1)}
\* smooth prediction of a falling edge falls as well
Smooth == (Modes /\ em \in {9, 10, 11} /\ ep = "ramp") => \A A \in {A0}, L \in {L0} : \A p \in {Of(A, L, 0, <<0, 0>>)} :
            \A i \in 1..eh, j \in 1..(ew - 1) : (es >= 1 /\ em = 10 => p[i][j] <= p[i][j + 1]) /\ (em = 10 /\ es < 1 => p[i][j] >= p[i][j + 1])
\* without any neighbour the middle grey, or one off it
Alone == (kind = "edge" /\ em = -1) =>
  LET none(y, x) == 0
      a == Above(none, 0, 0, ew, eh, 0, 0, 0, 63, ed)
      l == Left(none, 0, 0, ew, eh, 0, 0, 0, 63, ed)
  IN /\ \A k \in 0..(ew + eh - 1) : At(a, k) = P2[ed - 1] - 1 /\ At(l, k) = P2[ed - 1] + 1
     /\ At(a, -1) = P2[ed - 1] /\ At(l, -1) = P2[ed - 1]
     /\ All(DcPred(a, l, ew, eh, 0, 0, ed), LAMBDA v : v = P2[ed - 1])
\* the edges are samples of the row above and the column to the left, in order, the last of them repeated, none beyond the plane
Sample(y, x) == 100 * y + x
Taken == (kind = "edge" /\ em = -1) => \A last \in {9, 12, 40}, far \in 0..1 :
  LET a == Above(Sample, 8, 8, ew, eh, 1, 1, far, last, 15)
      l == Left(Sample, 8, 8, ew, eh, 1, 1, far, last, 15)
  IN /\ At(a, -1) = 707 /\ At(l, -1) = 707
     /\ \A k \in 0..(ew + eh - 1) : At(a, k) = 700 + MinI(8 + k, MinI(last, 8 + (far + 1) * ew - 1))
     /\ \A k \in 0..(ew + eh - 1) : At(l, k) = 7 + 100 * MinI(8 + k, MinI(last, 8 + (far + 1) * eh - 1))
\* the turned edges are those of the turned frame, whatever is missing
TurnedEdges == (kind = "edge" /\ em = -1) => \A hl, ha, far \in 0..1 :
  LET other(y, x) == Sample(x, y)
  IN (hl = ha) => /\ (ha = 1 => Above(Sample, 4, 8, ew, eh, hl, ha, far, 30, 15) = Left(other, 8, 4, eh, ew, ha, hl, far, 30, 15))
                  /\ Corner(Sample, 4, 8, hl, ha, 15) = Corner(other, 8, 4, ha, hl, 15)
=============================================================================
