INIT HInit
NEXT HNext
CHECK_DEADLOCK FALSE
INVARIANTS HParents HPathBack
CONSTANTS
  MaxEntries = 4
  Check = FALSE
  KeyTab = KeyTabNone
  OpMix <- HMixHist
  MaxSteps = 24
