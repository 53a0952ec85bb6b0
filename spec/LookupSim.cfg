INIT Init
NEXT NextDirect
CHECK_DEADLOCK FALSE
CONSTANTS
  KeyTab = {}
  Rand = TRUE
  MaxNodes = 12
  MaxDepth = 4
  Kinds = {"null","short","int","long","float","fbyte","double","str","prop","canvas","convex","vec","sound","uol","raw","video","unk"}
  Names = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}
  Forms = {"in0","in73","ref1","ref1b","wide","long"}
  Kids = {"none","affine"}
  Offs = {0,1,60,300}
  ValueSets = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,50,99,200,255}
  Cuts = FALSE
INVARIANTS RoundTrip LookupSound
