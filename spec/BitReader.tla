------------------------------ MODULE BitReader ------------------------------
(* The bit cursor as a state machine: data is fixed, every action is one      *)
(* descriptor read.  res is the value of the last read, fail is set by a read  *)
(* that would pass the end of the data (the code must not deliver a value).    *)
EXTENDS Bits
VARIABLES data, pos, res, fail
rvars == <<data, pos, res, fail>>

Step(r) == /\ ~fail
           /\ data' = data
           /\ fail' = Over(data, r.p)
           /\ pos' = r.p
           /\ res' = r.l

ReadF(n)  == Step(DescF(data, pos, n))
ReadSu(n) == Step(DescSu(data, pos, n))
ReadNs(n) == Step(DescNs(data, pos, n))
ReadLe(n) == Step(DescLe(data, pos, n))
ReadUvlc  == Step(DescUvlc(data, pos))
ReadLeb   == Step(DescLeb(data, pos))
\* trailing_bits(n): n bits consumed, n >= 1, no value
Trailing(n) == Step([l |-> <<>>, p |-> pos + n])
\* byte_alignment(): to the next byte boundary, no value
Align == Step([l |-> <<>>, p |-> pos + ((8 - (pos % 8)) % 8)])
\* more_data_in_bitstream(): whether whole bytes remain, at a byte boundary
More == /\ ~fail
        /\ UNCHANGED <<data, pos, fail>>
        /\ res' = IF pos < 8 * Len(data) THEN <<1>> ELSE <<0>>

Do(op, n) == CASE op = "f" -> ReadF(n)
               [] op = "su" -> ReadSu(n)
               [] op = "ns" -> ReadNs(n)
               [] op = "le" -> ReadLe(n)
               [] op = "uvlc" -> ReadUvlc
               [] op = "leb" -> ReadLeb
               [] op = "trail" -> Trailing(n)
               [] op = "align" -> Align
               [] op = "more" -> More

\* the cursor never moves back and never rests beyond the data
CursorInData == fail \/ pos <= 8 * Len(data)
Forward == [][pos' >= pos /\ pos' - pos <= 8 * Len(data) + 128]_rvars
=============================================================================
