INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkEncTab
  MaxEntries = 40
  MaxDirs = 12
  Few = TRUE
  AllVers = {}
