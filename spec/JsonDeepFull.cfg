INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SimpleMirrors
CONSTANTS
  KeyTab <- RealKeys
  MaxNodes = 60
  MaxKids = 2
  Op = "jfull"
