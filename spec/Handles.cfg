INIT Init
NEXT Next
INVARIANT Read
PROPERTY CellsKept
PROPERTY OnlyTarget
CHECK_DEADLOCK FALSE
