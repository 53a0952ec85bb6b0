INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  Fmts <- AllFmts
  Sizes <- LargeSizes
  Exh = FALSE
  WithFaults = FALSE
