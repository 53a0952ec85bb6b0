INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT TextOk
CONSTANTS
  KeyTab <- RealKeys
  Lens <- ShortLens
