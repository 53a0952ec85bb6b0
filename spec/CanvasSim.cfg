INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  Fmts <- AllFmts
  Sizes <- SmallSizes
  Exh = FALSE
  WithFaults = TRUE
