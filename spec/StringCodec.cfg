CONSTANTS
  Cases = 300
  KeyTab <- RealKeys
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
