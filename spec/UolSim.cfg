INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Sound MustAcyclic
CONSTANTS
  KeyTab <- RealKeys
  MaxNodes = 14
  MaxUols = 5
  Exh = FALSE
