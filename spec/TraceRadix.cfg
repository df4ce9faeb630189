INIT Init
NEXT Next
INVARIANT Conforms
ALIAS Short
CHECK_DEADLOCK FALSE
