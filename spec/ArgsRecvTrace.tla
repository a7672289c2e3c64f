---- MODULE ArgsRecvTrace ----
EXTENDS Args, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == ReceiverInit(in)
Exec(in, st0, op) == ReceiverCall(in, st0, op)
INSTANCE Conform
====
