INIT Init
NEXT Next
INVARIANT Counted
INVARIANT Alive
INVARIANT Confluent
INVARIANT Emit
CHECK_DEADLOCK FALSE
