INIT Init
NEXT Next
CONSTANTS
  Mode = "text"
  Pieces <- PNum
  MaxPieces = 5
  Openings <- ONum
  Calls <- CallsOne
INVARIANTS Consumed Partition Monotone
CHECK_DEADLOCK FALSE
