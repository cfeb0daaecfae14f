SPECIFICATION Spec
CONSTANTS Steps = {0, 2, 100, 250}
          Bends <- Many
          Bumps = {0, 1, 2, 3, 8}
          Lvls = {1, 20, 63}
          Sharps = {0, 3, 7}
          Depths = {8, 10, 12}
INVARIANTS InReach Stays Spread Shifts Sharper LevelOk
CHECK_DEADLOCK FALSE
