INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Openings <- PrefixAll
  Alphabet <- AlphaAll
  MaxLen = 2
  FlagSets = {0, 3}
  Mode = "chars"
INVARIANTS Lossless SplitFree EndsIdle IdleClean Lenient NumberTokens StringTokens
