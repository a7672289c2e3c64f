INIT Init
NEXT Next
CONSTANTS KeyLens = {0, 1, 63, 64, 65} Sizes = {0, 1, 55, 64} MaxCalls = 3
INVARIANTS KeyForms Fresh
CHECK_DEADLOCK FALSE
