INIT Init
NEXT Next
CONSTANTS MaxCalls = 3 Kinds = {0, 1, 2, 3}
INVARIANTS Accounted NeverNull LayoutFits
PROPERTY ReadsKeep
CHECK_DEADLOCK FALSE
