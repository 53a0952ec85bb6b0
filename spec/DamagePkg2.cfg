INIT Init
NEXT NextDmg
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  EncTab = 0
  MaxEntries = 7
  MaxDirs = 4
  Mode = "cached"
  DetectProfs <- ByShard
  LazyText <- Yes
