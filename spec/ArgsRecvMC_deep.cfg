INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Cfgs <- CfgsAll
  Pool <- PoolAll
  MaxCalls = 3
INVARIANTS TextIsText LastToggle
PROPERTIES Growing
