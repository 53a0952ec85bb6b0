INIT Init
NEXT NextDirect
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab = {}
  Rand = FALSE
  MaxNodes = 2
  MaxDepth = 2
  Kinds = {"null","short","int","long","float","fbyte","double","str","prop","canvas","convex","vec","sound","uol","raw","video","unk"}
  Names = {0,4}
  Forms = {"in0","ref1b"}
  Kids = {"affine"}
  Offs = {3}
  ValueSets = {3}
  Cuts = FALSE
INVARIANTS LookupSound
