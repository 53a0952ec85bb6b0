INIT InitAll
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkEncTab
  MaxEntries = 0
  MaxDirs = 2
  Few = TRUE
  AllVers <- OneIn5
