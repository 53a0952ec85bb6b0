INIT InitBig
NEXT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab = {}
  Rand = FALSE
  MaxNodes = 2
  MaxDepth = 2
  Kinds = {"null"}
  Names = {0}
  Forms = {"in0"}
  Kids = {"affine"}
  Offs = {0, 60}
  ValueSets = {3}
  Cuts = FALSE
  BigKinds = {"list", "text", "wide", "uol", "pad", "canvas", "sound", "raw", "video"}
  BigLens = {40000, 70000}
