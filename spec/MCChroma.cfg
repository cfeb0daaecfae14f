SPECIFICATION Spec
CONSTANTS Sizes = {0, 1, 5, 6, 13, 14}
          Alphas <- SomeAlphas
          Seeds = {0, 3}
          Shapes = {"flat", "noise", "mild", "half"}
          Depths = {8, 10}
INVARIANTS Shaped None Differences Opposite Negative MeanStays Ends Larger Named
CHECK_DEADLOCK FALSE
