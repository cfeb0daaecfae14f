SPECIFICATION Spec
CONSTANT MaxSyms = 2
INVARIANTS RoundTrip OverrunFails CursorInData
PROPERTY ReaderForward
