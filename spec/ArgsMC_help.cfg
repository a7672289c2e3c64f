INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Schemas <- SchemasAll
  ArgPool <- PoolHelp
  MaxArgs = 3
  What = "help"
INVARIANTS Accounted Scoped InnermostWins EndOnce
PROPERTIES Monotone
