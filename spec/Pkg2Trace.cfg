INIT Init
NEXT Next
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
CONSTANTS
  EncTab = 0
  KeyTab = 0
