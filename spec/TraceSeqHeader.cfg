SPECIFICATION Spec
INVARIANTS Conforms ColorConsistent OpsConsistent ToolsConsistent
