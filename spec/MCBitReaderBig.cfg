SPECIFICATION Spec
CONSTANT MaxSyms = 3
INVARIANTS RoundTrip OverrunFails CursorInData
PROPERTY ReaderForward
