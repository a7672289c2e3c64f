INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Pool <- PoolQuick
  MaxCalls = 4
  FlagSets = {0, 3}
INVARIANTS Fresh Status
