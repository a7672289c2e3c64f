INIT Init
NEXT Next
CONSTANTS
  Mode = "treearrive"
  Pieces <- PTreeA
  MaxPieces = 3
  Openings <- All0
  Calls <- CallsTree
INVARIANTS Independent
CHECK_DEADLOCK FALSE
