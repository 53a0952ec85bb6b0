INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab <- RealKeys
  EncTab = 0
  MaxEntries = 10
  MaxDirs = 6
  Mode = "cached"
  DetectProfs <- ByShard
