INIT Init
NEXT Next
CONSTANTS
  Mode = "text"
  Pieces <- PAny
  MaxPieces = 3
  Openings <- All0
  Calls <- CallsOne
INVARIANTS Consumed Partition Monotone
CHECK_DEADLOCK FALSE
