INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
ALIAS Where
