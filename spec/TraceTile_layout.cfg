SPECIFICATION Spec
INVARIANT Conforms
CONSTANT Aspect = "layout"
