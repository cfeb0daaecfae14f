SPECIFICATION Spec
CONSTANTS Widths = {8, 9, 15, 24, 33, 50}
          Seeds = {5}
          Depths = {8, 10}
          Sets = {0, 12, 15}
          Heights = {1, 8, 40, 57, 63, 64, 65, 100, 130, 200, 250, 300}
INVARIANTS BankOk UpOk UpLimOk StripesOk FilterOk LocalOk
CHECK_DEADLOCK FALSE
