INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Settles InOwn
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkEncTab
  MaxNodes = 26
  Exh = FALSE
