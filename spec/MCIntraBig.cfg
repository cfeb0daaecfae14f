SPECIFICATION Spec
CONSTANTS Sides = {4, 8, 16, 32}
          Heights = {4, 8, 16, 32}
          Seeds = {0, 1, 2, 3}
          Shapes = {"flat", "noise", "mild", "step", "ramp"}
          Depths = {8, 12}
          Deltas <- AllDeltas
INVARIANTS Shaped Even Between Brighter Turned OneOfThree Smooth Alone Taken TurnedEdges
CHECK_DEADLOCK FALSE
