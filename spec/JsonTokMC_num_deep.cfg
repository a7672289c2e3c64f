INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Openings <- PrefixNone
  Alphabet <- AlphaNum
  MaxLen = 6
  FlagSets = {0, 1, 2, 3}
  Mode = "text"
INVARIANTS Lossless SplitFree EndsIdle IdleClean Lenient NumberTokens StringTokens
