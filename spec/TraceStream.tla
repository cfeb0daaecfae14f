------------------------------ MODULE TraceStream ------------------------------
(* Streams run through the real parser against Stream.                          *)
EXTENDS Stream, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Aspect
VARIABLES ci
vars == <<stvars, ci>>
Got == Cases[ci].out
Init == ci \in 1..Len(Cases) /\ StInit(Cases[ci].in.Data)
Next == /\ UNCHANGED ci
        /\ \/ ~Over(data, pos) /\ ~StDone /\ StNext
           \/ (StDone \/ Over(data, pos)) /\ UNCHANGED stvars
Spec == Init /\ [][Next]_vars

Fields == CASE Aspect = "framing" -> {"Type", "Ext", "HasSize", "Tid", "Sid", "Size", "Forbidden", "Reserved", "Reserved3"}
            [] Aspect = "headers" -> {"Type", "Seq", "Fh", "Shown"}
            [] Aspect = "tiles" -> {"Type", "Tiles"}
SameLog == /\ Len(Got.log) = Len(log)
           /\ \A i \in 1..Len(log) : \A f \in Fields : Got.log[i][f] = log[i][f]
SameRefs == Got.refs.Valid = ref.Valid /\ Got.refs.Id = ref.Id /\ Got.refs.OrderHint = ref.OrderHint /\ Got.refs.Type = ref.Type
Conforms ==
  IF Over(data, pos) THEN Got.st # "ok"
  ELSE CASE mode = "end" -> /\ Got.st = "ok" /\ Got.p = pos /\ SameLog
                            /\ (Aspect = "headers" => SameRefs)
         [] mode = "refused" -> Got.st # "ok" /\ SameLog
         [] OTHER -> TRUE
=============================================================================
