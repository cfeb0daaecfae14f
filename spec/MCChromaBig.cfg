SPECIFICATION Spec
CONSTANTS Sizes = {0, 1, 2, 5, 6, 7, 13, 14}
          Alphas <- AllAlphas
          Seeds = {0, 1, 3}
          Shapes = {"flat", "noise", "mild", "half"}
          Depths = {8, 12}
INVARIANTS Shaped None Differences Opposite Negative MeanStays Ends Larger Named
CHECK_DEADLOCK FALSE
