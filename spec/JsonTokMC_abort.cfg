INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Openings <- PrefixAll
  Alphabet <- AlphaEach
  MaxLen = 1
  FlagSets = {0, 3}
  Mode = "abort"
INVARIANTS Lossless SplitFree EndsIdle IdleClean Lenient NumberTokens StringTokens
