SPECIFICATION Spec
CONSTANTS Sides = {4, 8, 16}
          Heights = {4, 8}
          Seeds = {0, 1, 3}
          Shapes = {"flat", "noise", "mild", "step", "ramp"}
          Depths = {8, 10}
          Deltas <- SomeDeltas
INVARIANTS Shaped Even Between Brighter Turned OneOfThree Smooth Alone Taken TurnedEdges
CHECK_DEADLOCK FALSE
