INIT HInit
NEXT HNext
CHECK_DEADLOCK FALSE
INVARIANTS HParents HPathBack
CONSTANTS
  MaxEntries = 4
  Check = FALSE
  KeyTab = KeyTabNone
  OpMix <- HMixWalk
  MaxSteps = 24
