INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkEncTab
  MaxEntries = 14
  MaxDirs = 6
  Few = FALSE
  AllVers = {}
