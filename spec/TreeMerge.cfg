INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS ParentsAgree NoCycle PathBack
CONSTANTS
  KeyTab <- RealKeys
  EncTab <- MkNone
  OpMix <- MixMerge
  MaxSteps = 30
  MaxEntries = 9
  MaxDirs = 4
