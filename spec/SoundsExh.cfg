INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT WaveSane
CONSTANTS
  KeyTab <- RealKeys
  MaxItems = 1
  Exh = TRUE
