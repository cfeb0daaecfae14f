----------------------------- MODULE MCBitReader -----------------------------
(* Closed model: a writer appends up to MaxSyms values in any mix of           *)
(* descriptors; the bits are packed into bytes; the reader reads the same      *)
(* descriptors.  Every written value comes back, with the cursor exactly at     *)
(* the end of its code - so every descriptor is a prefix code and its writer's  *)
(* inverse.                                                                     *)
EXTENDS BitReader
CONSTANT MaxSyms
Vals == {-64, -3, -1, 0, 1, 2, 3, 7, 10, 127, 128, 300}
VARIABLES script, bits, ends, k, phase
vars == <<rvars, script, bits, ends, k, phase>>

Kinds == {<<"f", n>> : n \in {0, 1, 3, 9}} \cup {<<"su", n>> : n \in {1, 2, 7}}
         \cup {<<"ns", n>> : n \in {1, 2, 3, 5, 8, 11}} \cup {<<"le", n>> : n \in {1, 2}}
         \cup {<<"uvlc", 0>>, <<"leb", 0>>}
InRange(kd, v) ==
  CASE kd[1] = "f" -> v >= 0 /\ v < Pow2[kd[2]]
    [] kd[1] = "su" -> v < Pow2[kd[2] - 1] /\ v >= -Pow2[kd[2] - 1]
    [] kd[1] = "ns" -> v >= 0 /\ v < kd[2]
    [] kd[1] = "le" -> v >= 0 /\ v < Pow2[8 * kd[2]]
    [] OTHER -> v >= 0
Enc(kd, v) ==
  CASE kd[1] = "f" -> EncF(v, kd[2]) [] kd[1] = "su" -> EncSu(v, kd[2])
    [] kd[1] = "ns" -> EncNs(v, kd[2]) [] kd[1] = "le" -> EncLe(v, kd[2])
    [] kd[1] = "uvlc" -> EncUvlc(v) [] kd[1] = "leb" -> EncLeb(v)

Init == /\ data = <<>> /\ pos = 0 /\ res = <<>> /\ fail = FALSE
        /\ script = <<>> /\ bits = <<>> /\ ends = <<>> /\ k = 0 /\ phase = "write"
Write == /\ phase = "write" /\ Len(script) < MaxSyms
         /\ \E kd \in Kinds, v \in Vals :
              /\ InRange(kd, v)
              /\ script' = Append(script, <<kd, v>>)
              /\ bits' = bits \o Enc(kd, v)
              /\ ends' = Append(ends, Len(bits'))
         /\ UNCHANGED <<rvars, k, phase>>
Seal == /\ phase = "write" /\ Len(script) = MaxSyms
        /\ phase' = "read" /\ data' = PackBits(bits)
        /\ UNCHANGED <<pos, res, fail, script, bits, ends, k>>
Read == /\ phase = "read" /\ k < Len(script)
        /\ Do(script[k + 1][1][1], script[k + 1][1][2])
        /\ k' = k + 1
        /\ UNCHANGED <<script, bits, ends, phase>>
\* one more whole read than was written must fail
ReadBeyond == /\ phase = "read" /\ k = Len(script)
              /\ ReadF(8 * Len(data) + 1 - pos)
              /\ phase' = "end"
              /\ UNCHANGED <<script, bits, ends, k>>
Done == phase = "end" /\ UNCHANGED vars
Next == Write \/ Seal \/ Read \/ ReadBeyond \/ Done
Spec == Init /\ [][Next]_vars

RoundTrip == (phase = "read" /\ k > 0) => /\ ~fail
                                          /\ res = IntLimbs(script[k][2])
                                          /\ pos = ends[k]
OverrunFails == phase = "end" => fail
ReaderForward == Forward
=============================================================================
