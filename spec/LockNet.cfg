INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT NoCycle
CONSTANT MaxLen = 6
