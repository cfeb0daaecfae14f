SPECIFICATION Spec
INVARIANT Conforms
CONSTANT Aspect = "coeffs"
