INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Schemas <- SchemasAll
  ArgPool <- PoolParse
  MaxArgs = 3
  What = "parse"
INVARIANTS Accounted Scoped InnermostWins EndOnce
PROPERTIES Monotone
