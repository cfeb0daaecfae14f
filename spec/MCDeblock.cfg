SPECIFICATION Spec
CONSTANTS Steps = {0, 2, 100, 250}
          Bends <- Some
          Bumps = {0, 1, 3}
          Lvls = {1, 20, 63}
          Sharps = {0, 3, 7}
          Depths = {8, 10}
INVARIANTS InReach Stays Spread Shifts Sharper LevelOk
CHECK_DEADLOCK FALSE
