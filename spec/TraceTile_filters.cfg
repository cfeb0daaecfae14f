SPECIFICATION Spec
INVARIANT Conforms
CONSTANT Aspect = "filters"
