INIT Init
NEXT Next
CONSTANTS
  Mode = "text"
  Pieces <- PStr
  MaxPieces = 5
  Openings <- OStr
  Calls <- CallsOne
INVARIANTS Consumed Partition Monotone
CHECK_DEADLOCK FALSE
