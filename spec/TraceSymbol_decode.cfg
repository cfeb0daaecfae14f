SPECIFICATION Spec
CONSTANT Aspect = "decode"
INVARIANTS Conforms Normal Inside LeftAtEnd CdfsValid
