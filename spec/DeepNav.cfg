INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Runs <- MkLong
  Part = "nav"
  KeyTab = {}
