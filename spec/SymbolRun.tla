------------------------------ MODULE SymbolRun ------------------------------
(* One tile's worth of symbol decoding as a state machine: initialise, read a   *)
(* sequence of symbols and literals against adapting CDFs, leave the tile.      *)
EXTENDS Symbol
VARIABLES data, ph, s, cdfs, start, sz, adapt, last
symvars == <<data, ph, s, cdfs, start, sz, adapt, last>>

Begin == /\ ph = "init"
         /\ s' = SymInit(data, start, sz) /\ ph' = "run" /\ last' = 0
         /\ UNCHANGED <<data, cdfs, start, sz, adapt>>
Symbol(j) == /\ ph = "run"
             /\ \E x \in {SymRead(data, s, cdfs[j], adapt)} :
                  s' = x.s /\ last' = x.y /\ cdfs' = [cdfs EXCEPT ![j] = x.cdf]
             /\ UNCHANGED <<data, ph, start, sz, adapt>>
Literal(n) == /\ ph = "run"
              /\ \E x \in {SymLit(data, s, n)} : s' = x.s /\ last' = x.y
              /\ UNCHANGED <<data, ph, cdfs, start, sz, adapt>>
NonSym(n) == /\ ph = "run"
             /\ \E x \in {SymNs(data, s, n)} : s' = x.s /\ last' = x.y
             /\ UNCHANGED <<data, ph, cdfs, start, sz, adapt>>
Leave == /\ ph = "run"
         /\ IF SymExitOk(s) THEN ph' = "left" /\ s' = [s EXCEPT !.p = SymExitPos(s)]
                            ELSE ph' = "refused" /\ UNCHANGED s
         /\ UNCHANGED <<data, cdfs, start, sz, adapt, last>>
------------------------------------------------------------------------------
\* the decoder's own invariant: a normalised range above the value
Normal == ph \in {"run", "left"} => s.r \in 32768..65535 /\ s.v \in 0..(s.r - 1)
\* no bit outside the tile is consumed, and a tile is always left exactly at its end
Inside == ph = "run" => s.p <= start + 8 * sz /\ s.p + HighOf(0, s.m) = start + 8 * sz
LeftAtEnd == ph = "left" => s.p = start + 8 * sz
CdfsValid == \A j \in DOMAIN cdfs : ValidCdf(cdfs[j])
=============================================================================
