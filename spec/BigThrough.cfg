INIT BInit
NEXT BNext
INVARIANT Read
CHECK_DEADLOCK FALSE
