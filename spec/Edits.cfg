INIT Init
NEXT Next
INVARIANT Read
CHECK_DEADLOCK FALSE
