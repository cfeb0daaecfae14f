SPECIFICATION Spec
INVARIANT CursorInData
