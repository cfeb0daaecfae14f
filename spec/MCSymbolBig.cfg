SPECIFICATION Spec
CONSTANTS Byte = {0, 1, 127, 170, 255, 64, 200}
          MaxSz = 3
          MaxReads = 6
INVARIANTS Normal Inside LeftAtEnd CdfsValid InAlphabet
CHECK_DEADLOCK FALSE
