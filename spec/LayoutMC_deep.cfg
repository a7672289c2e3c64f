INIT Init
NEXT Next
CONSTANT PathPool <- PathsMore
CONSTANT MaxCommands = 5
CONSTANT Probes <- ProbesAll
INVARIANTS PreOrder Nearest Found Between
CHECK_DEADLOCK FALSE
