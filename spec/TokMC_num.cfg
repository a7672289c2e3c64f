INIT Init
NEXT Next
CONSTANTS
  Mode = "text"
  Pieces <- PNum
  MaxPieces = 4
  Openings <- ONum
  Calls <- CallsOne
INVARIANTS Consumed Partition Monotone
CHECK_DEADLOCK FALSE
