INIT InitFew
NEXT NextB
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  EncTab = 0
  Brute = TRUE
