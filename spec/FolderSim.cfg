INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Nothing
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkEncTab
  MaxSteps = 26
