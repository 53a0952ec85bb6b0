INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
INVARIANTS Settles
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkEncTab
  MaxNodes = 8
  Exh = FALSE
  What = "locks"
