INIT Init
NEXT Next
CONSTANTS
  Mode = "tree"
  Pieces <- PTree
  MaxPieces = 5
  Openings <- All0
  Calls <- CallsOne
INVARIANTS Nested
CHECK_DEADLOCK FALSE
