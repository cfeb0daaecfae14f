SPECIFICATION Spec
CONSTANTS Widths <- AllWidths
          Seeds = {0, 3, 5, 6}
          Depths = {8, 10, 12}
          Sets = {0, 3, 6, 9, 10, 12, 13, 14, 15}
          Heights <- AllHeights
INVARIANTS BankOk UpOk UpLimOk StripesOk FilterOk LocalOk
CHECK_DEADLOCK FALSE
