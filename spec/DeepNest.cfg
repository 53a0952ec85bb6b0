INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Levels = 5000
  KeyTab = {}
