INIT Init
NEXT Next
CONSTANTS Kinds = {0, 1, 2, 3, 4, 5} Of = {0,1,2,3,4,5,6,7,8,9} Tables = {2, 3} Bytes = {0, 1, 127, 128, 255} MaxLen = 5
INVARIANTS Tiled PutGet Additive LongFits
CHECK_DEADLOCK FALSE
