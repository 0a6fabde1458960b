INIT PInit
NEXT PNext
INVARIANT Read
CHECK_DEADLOCK FALSE
