CONSTANTS Alphabet = {121, 113, 116, 98, 115, 103, 104, 118, 97, 109, 40, 41, 123, 125, 0, 122, 128}
 MaxLen = 3
 Prefixed = 0
 Moves = 0
INIT Init
NEXT Next
INVARIANTS Grammar Tree Inside StepStays DownUp Cut
PROPERTY FirstDefect
CHECK_DEADLOCK FALSE
