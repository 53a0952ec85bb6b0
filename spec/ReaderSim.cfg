INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab = {}
  MaxItems = 14
  MaxReads = 40
  Kids = {"none","affine"}
INVARIANT Tiles
