INIT InitLong
NEXT Write
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkEncTab
  MaxEntries = 0
  MaxDirs = 2
  Few = TRUE
  AllVers = {}
  Deep = TRUE
