SPECIFICATION Spec
INVARIANT Read
CHECK_DEADLOCK FALSE
