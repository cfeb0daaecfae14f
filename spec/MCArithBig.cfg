CONSTANT N = 600
INIT Init
NEXT Next
INVARIANTS NegBijection RecBijection RoundNearest Logs BrevInvolution Circle UnitsCover Geometry
