INIT CInit
NEXT CNext
CHECK_DEADLOCK FALSE
INVARIANTS Settles
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkEncTab
  MaxNodes = 12
  Exh = FALSE
  What = "sched"
