INIT Init
NEXT Next
CONSTANTS
  MaxEntries = 30
  Check = TRUE
  KeyTab = KeyTabNone
CHECK_DEADLOCK FALSE
