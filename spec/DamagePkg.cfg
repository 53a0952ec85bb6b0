INIT Init
NEXT NextDmg
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkEncTab
  MaxEntries = 9
  MaxDirs = 4
  Few = FALSE
  AllVers = {}
  LazyText <- Yes
