----------------------------- MODULE TraceFinish -----------------------------
(* Recordings of the ends of a few frames in a row.                             *)
EXTENDS Finish, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ci, step, slots, shown
In == Cases[ci].in
Got == Cases[ci].out
Init == ci \in 1..Len(Cases) /\ step = 0 /\ slots = Nothing /\ shown = <<>>
Next == /\ step < Len(In.Frames) /\ step' = step + 1 /\ UNCHANGED ci
        /\ LET f == In.Frames[step + 1]
               pic == IF f.Show >= 2 THEN <<>> ELSE Picture(f)
           IN slots' = After(slots, f, pic) /\ shown' = Shown(slots, f, pic)
Spec == Init /\ [][Next]_<<ci, step, slots, shown>>
Conforms == step > 0 =>
  LET g == Got.Steps[step]
  IN /\ g.st = "ok"
     /\ Len(g.Out) >= Len(shown) /\ (shown = <<>> => g.Out = <<>>) /\ \A p \in 1..Len(shown) : g.Out[p] = shown[p]
     /\ \A i \in 1..8 : g.Metas[i] = slots[i].Meta
\* a kept frame that becomes current again is there as it was (its type and format follow from the header and the sequence)
Reloads == (step > 0 /\ In.Frames[step].Show = 3) =>
  LET g == Got.Steps[step]
      s == slots[In.Frames[step].Idx + 1]
  IN <<g.RefD, g.ModeD, g.FOn, g.FData>> = s.Par /\ g.Tag = s.Tag /\ g.Seg = s.Seg /\ g.Mf = s.Mf /\ g.Meta = SubSeq(s.Meta, 1, 8) \o SubSeq(s.Meta, 12, Len(s.Meta))
\* what the slots hold after the last frame
Keeps == (step > 0 /\ step = Len(In.Frames)) =>
  \A i \in 1..8 : LET g == Got.Slots[i]
                      s == slots[i]
                  IN IF s.Meta = <<>> THEN g.Tag = -1
                     ELSE /\ g.Tag = s.Tag /\ g.Seg = s.Seg /\ g.Mf = s.Mf
                          /\ \A p \in 1..Len(s.Px) : g.Px[p] = s.Px[p]
=============================================================================
