INIT InitExh
NEXT NextExh
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab = {}
  Rand = FALSE
  MaxNodes = 2
  MaxDepth = 2
  Kinds = {"null"}
  Names = {0,4}
  Forms = {"in0"}
  Kids = {"none"}
  Offs = {3}
  ValueSets = {3}
  Cuts = TRUE
  Few = 6
  Vals <- Every
  LazyText <- Yes
INVARIANTS CutSafe
