SPECIFICATION Spec
INVARIANT Conforms
CONSTANT Aspect = "modes"
