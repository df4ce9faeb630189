INIT Init
NEXT Next
INVARIANT Consistent
INVARIANT Emit
CHECK_DEADLOCK FALSE
