CONSTANTS
  Blocks = 524
  Cases = 24
  Reqs = 14
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
