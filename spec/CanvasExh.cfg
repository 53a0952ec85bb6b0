INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  Fmts <- Formats
  Sizes <- ExhSizes
  Exh = TRUE
  WithFaults = FALSE
