INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Openings <- PrefixStr
  Alphabet <- AlphaStr
  MaxLen = 4
  FlagSets = {0}
  Mode = "text"
INVARIANTS Lossless SplitFree EndsIdle IdleClean Lenient NumberTokens StringTokens
