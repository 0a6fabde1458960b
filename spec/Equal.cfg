INIT Init
NEXT ENext
INVARIANT Read
CHECK_DEADLOCK FALSE
