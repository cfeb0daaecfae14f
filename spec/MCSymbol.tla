------------------------------- MODULE MCSymbol -------------------------------
(* Every one-to-three byte tile over a small byte alphabet, every sequence of    *)
(* reads up to a bound, with and without adaptation.                             *)
EXTENDS SymbolRun
CONSTANTS Byte, MaxSz, MaxReads
VARIABLE k
vars == <<symvars, k>>
Cdf2 == <<8192, 32768, 0>>
Cdf3 == <<30000, 32700, 32768, 15>>
Cdf5 == <<1, 2, 3, 4, 32768, 31>>
Init == /\ \E n \in 1..MaxSz : sz = n /\ data \in [1..(n + 1) -> Byte]
        /\ start = 0 /\ ph = "init" /\ s = [v |-> 0, r |-> 32768, m |-> 0, p |-> 0]
        /\ cdfs = <<Cdf2, Cdf3, Cdf5>> /\ adapt \in BOOLEAN /\ last = 0 /\ k = 0
Next == \/ Begin /\ UNCHANGED k
        \/ k < MaxReads /\ k' = k + 1 /\ ((\E j \in 1..3 : Symbol(j)) \/ Literal(2) \/ NonSym(5))
        \/ Leave /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
\* values stay in their alphabets
InAlphabet == last \in 0..4
=============================================================================
