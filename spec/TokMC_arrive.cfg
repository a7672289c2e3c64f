INIT Init
NEXT Next
CONSTANTS
  Mode = "arrive"
  Pieces <- PArr
  MaxPieces = 2
  Openings <- All0
  Calls <- CallsArr
INVARIANTS Consumed Independent
CHECK_DEADLOCK FALSE
