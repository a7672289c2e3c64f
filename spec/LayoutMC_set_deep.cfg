INIT InitSet
NEXT NextSet
CONSTANT PathPool <- PathsAll
CONSTANT MaxCommands = 15
CONSTANT Probes <- PathsAll
CONSTANT Calls <- CallsList
INVARIANTS PreOrder Nearest Found Between
CHECK_DEADLOCK FALSE
