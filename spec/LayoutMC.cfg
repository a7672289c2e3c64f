INIT Init
NEXT Next
CONSTANT PathPool <- PathsAll
CONSTANT MaxCommands = 4
CONSTANT Probes <- ProbesAll
INVARIANTS PreOrder Nearest Found Between
CHECK_DEADLOCK FALSE
