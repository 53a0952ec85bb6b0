INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  MaxItems = 3
  Exh = FALSE
  Sizes <- BigSizes
