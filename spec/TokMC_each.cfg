INIT Init
NEXT Next
CONSTANTS
  Mode = "text"
  Pieces <- PEach
  MaxPieces = 1
  Openings <- OEach
  Calls <- CallsOne
INVARIANTS Consumed Partition Monotone
CHECK_DEADLOCK FALSE
