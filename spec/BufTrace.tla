---- MODULE BufTrace ----
EXTENDS Buf, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == Start(in)
Exec(in, st0, op) == Call(in, st0, op)
INSTANCE Conform
====
