INIT Init
NEXT Next
CONSTANTS Kinds = {0, 1, 2, 5} Of = {10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33} Tables = {0, 1, 4, 5, 6, 7, 8, 9} Bytes = {0} MaxLen = 0
INVARIANTS Tiled PutGet
CHECK_DEADLOCK FALSE
