INIT Init
NEXT Next
CONSTANTS KeyLens = {0, 1, 63, 64, 65, 128} Sizes = {0, 1, 55, 63, 64} MaxCalls = 4
INVARIANTS KeyForms Fresh
CHECK_DEADLOCK FALSE
