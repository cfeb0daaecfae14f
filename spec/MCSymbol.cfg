SPECIFICATION Spec
CONSTANTS Byte = {0, 1, 127, 170, 255}
          MaxSz = 3
          MaxReads = 4
INVARIANTS Normal Inside LeftAtEnd CdfsValid InAlphabet
CHECK_DEADLOCK FALSE
