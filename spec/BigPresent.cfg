INIT BPInit
NEXT BPNext
INVARIANT Read
CHECK_DEADLOCK FALSE
