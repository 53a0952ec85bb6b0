INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT SimpleMirrors
CONSTANTS
  KeyTab <- RealKeys
  MaxNodes = 22
  MaxKids = 7
  Op = "jsimple"
