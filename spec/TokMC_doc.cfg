INIT Init
NEXT Next
CONSTANTS
  Mode = "tree"
  Pieces <- All0
  MaxPieces = 0
  Openings <- DocTexts
  Calls <- CallsOne
INVARIANTS Nested Exact
CHECK_DEADLOCK FALSE
