INIT Init
NEXT Next
INVARIANT NotStuck
CHECK_DEADLOCK FALSE
