SPECIFICATION Spec
CONSTANT Aspect = "adapt"
INVARIANTS Conforms Normal Inside LeftAtEnd CdfsValid
