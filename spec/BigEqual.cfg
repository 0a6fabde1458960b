INIT BInit
NEXT BENext
INVARIANT Read
CHECK_DEADLOCK FALSE
