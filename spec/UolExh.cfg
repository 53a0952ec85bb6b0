INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Sound MustAcyclic
CONSTANTS
  KeyTab <- RealKeys
  MaxNodes = 4
  MaxUols = 2
  Exh = TRUE
