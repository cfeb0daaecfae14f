SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Keeps
INVARIANT Reloads
CHECK_DEADLOCK FALSE
