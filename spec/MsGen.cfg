INIT Init
NEXT Next
CONSTANTS
  MaxEntries = 5
  Check = TRUE
  KeyTab = KeyTabNone
CHECK_DEADLOCK FALSE
