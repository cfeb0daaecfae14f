------------------------------ MODULE MCRestore ------------------------------
(* What Restore.tla promises of stripes, of upscaled rows, and of every filter over      *)
(* small planes.                                                                  *)
EXTENDS Restore
CONSTANTS Widths, Seeds, Depths, Sets, Heights
VARIABLES kind, ra, rb, rc, rd, re
AllWidths == 8..70
AllHeights == 1..400
vars == <<kind, ra, rb, rc, rd, re>>
Init == \/ kind = "up?" /\ ra \in Widths /\ rb = 0 /\ rc = 0 /\ rd = 0 /\ re = 8
        \/ kind = "stripe?" /\ ra \in 0..1 /\ rb = 0 /\ rc = 0 /\ rd = 0 /\ re = 8
        \/ kind = "filter?" /\ ra \in Seeds /\ rb \in 0..2 /\ rc = 0 /\ rd = 0 /\ re = 8
Next == \/ kind = "up?" /\ kind' = "up" /\ UNCHANGED ra /\ rb' \in 9..16 /\ rc' \in Seeds /\ rd' = 0 /\ re' \in Depths
        \/ kind = "stripe?" /\ kind' = "stripe" /\ UNCHANGED ra /\ rb' \in Heights /\ rc' = 0 /\ rd' = 0 /\ re' = 8
        \/ kind = "filter?" /\ kind' = "filter" /\ UNCHANGED <<ra, rb>> /\ rc' \in Sets /\ rd' \in {0, 17, 20} /\ re' \in Depths
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* rows become ra samples; the frame's row is ra * 8 / rb samples
Dw == (ra * 8 + rb \div 2) \div rb
Noise(i, k) == ((i * 131 + k * k * 37 + k * 11) % 251) * P2[re - 8]
Row == Made([k \in 1..Dw |-> Noise(rc, k)])
RowPlus(r, d) == Made([k \in 1..Len(r) |-> r[k] + d])
\* every bank of taps adds up to 128, and the one of no fraction takes the sample itself
BankOk == kind = "up?" => /\ Len(Tab.Up) = 64
                          /\ \A i \in 1..64 : FoldLeft(LAMBDA s, v : s + v, 0, Tab.Up[i]) = 128
                          /\ Tab.Up[1] = <<0, 0, 0, 128, 0, 0, 0, 0>>
                          /\ \A i \in 2..64, k \in 1..8 : Tab.Up[i][k] = Tab.Up[66 - i][9 - k]
\* positions stay in the row, a step is at most a sample, and a row of the same width is that row
UpOk == kind = "up" =>
  /\ Step(Dw, ra) \in 8191..16384
  /\ LET first == Start(Dw, ra) - 16384
         last == first + (ra - 1) * Step(Dw, ra)
     IN first \in -16384..16384 /\ last \div 16384 \in (Dw - 2)..Dw
  /\ UpRow(Made([k \in 1..Dw |-> 77]), Dw, ra, Dw, re) = Made([k \in 1..ra |-> 77])
  /\ \A lim \in {Dw, Dw - 1} \ {0} : LET out == UpRow(Row, Dw, ra, lim, re)
                               IN Len(out) = ra /\ \A k \in 1..ra : out[k] \in 0..(P2[re] - 1)
\* a row that only rises still does, but for the taps' overshoot; samples the decoder lacks are not seen
UpLimOk == kind = "up" => LET short == Made([k \in 1..Dw |-> IF k <= Dw - 1 THEN Row[k] ELSE 0])
                          IN Dw > 1 => UpRow(Row, Dw, ra, Dw - 1, re) = UpRow(short, Dw, ra, Dw - 1, re)

\* rb rows: every row is in one stripe, stripes follow one another, and no unit of any size ends within one
StripesOk == kind = "stripe" =>
  LET sy == ra
      h == rb
      of(y) == StripeOf(y, sy)
  IN /\ \A y \in 0..(h - 1) : y \in StripeTop(of(y), sy)..StripeEnd(of(y), sy)
     /\ of(0) = 0 /\ \A y \in 1..(h - 1) : of(y) - of(y - 1) \in 0..1
     /\ \A n \in 0..of(h - 1) : StripeEnd(n, sy) + 1 = StripeTop(n + 1, sy)
     /\ \A us \in (IF sy = 0 THEN {64, 128, 256} ELSE {32, 64, 128, 256}) :
          LET down == CountUnits(us, h)
              unit(y) == MinI(down - 1, (y + 8 \div P2[sy]) \div us)
          IN /\ unit(0) = 0 /\ unit(h - 1) = down - 1
             /\ \A y \in 1..(h - 1) : unit(y) # unit(y - 1) => of(y) # of(y - 1)

\* rb: the filter; rd + 12 rows of 10 samples in a frame of 4:2:0: stripes are 32 rows
PW == 10
PH == rd + 12
Cdf == Made([y \in 1..PH |-> Made([x \in 1..PW |-> IF y <= rd - 6 THEN 0 ELSE Noise(ra, x * 5 + y * 3)])])
Deb == Made([y \in 1..PH |-> Made([x \in 1..PW |-> IF y <= rd - 6 THEN 0 ELSE Noise(ra + 1, x * 7 + y)])])
UnitOf(t, q0, q1) == [Type |-> t, Coef |-> <<<<3, -7, 15>>, <<5, -20, ra % 16>>>>, Set |-> rc, Xqd |-> <<q0, q1>>]
Out(deb, cdef, unit) == RestorePlane(deb, cdef, PW, PH, 1, 1, 32, <<<<unit>>, <<unit>>>>, re)
Put(p, y, x, v) == [p EXCEPT ![y][x] = v]
In == kind = "filter"
Kept == [UnitOf(1, 0, 0) EXCEPT !.Coef = <<<<0, 0, 0>>, <<0, 0, 0>>>>]
Still == [UnitOf(2, 0, 128) EXCEPT !.Set = rc]
FilterOk == In => \A c \in {Cdf}, d \in {Deb} :
  \* without a filter the plane stays; without taps and without weights as well
  /\ Out(d, c, UnitOf(0, 0, 0)) = c
  /\ (rb = 1 => Out(d, c, Kept) = c)
  /\ (rb = 2 => Out(d, c, Still) = c)
  /\ LET o == Out(d, c, UnitOf(rb, -32, 31))
     IN Len(o) = PH /\ \A y \in 1..PH : Len(o[y]) = PW /\ \A x \in 1..PW : o[y][x] \in 0..(P2[re] - 1)
\* a sample after CDEF reaches three rows and columns around it, and only its own stripe; one before it none of its stripe
Near(u, v) == Abs(u - v) <= 3
LocalOk == In => \A c \in {Cdf}, d \in {Deb} :
  LET un == UnitOf(rb, -32, 31)
      o == Out(d, c, un)
  IN \A p \in {<<rd + 1, 1>>, <<rd + 4, 6>>, <<rd + 12, 10>>} :
       LET top == P2[re] - 1
           oc == Out(d, Put(c, p[1], p[2], top - c[p[1]][p[2]]), un)
           od == Out(Put(d, p[1], p[2], top - d[p[1]][p[2]]), c, un)
       IN \A y \in 1..PH, x \in 1..PW :
            /\ (~(Near(y, p[1]) /\ Near(x, p[2])) \/ StripeOf(y - 1, 1) # StripeOf(p[1] - 1, 1)) => oc[y][x] = o[y][x]
            /\ (~(Near(y, p[1]) /\ Near(x, p[2])) \/ StripeOf(y - 1, 1) = StripeOf(p[1] - 1, 1)) => od[y][x] = o[y][x]
=============================================================================
