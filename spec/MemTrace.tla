---- MODULE MemTrace ----
EXTENDS Mem, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == Start
Exec(in, st0, op) == Call(st0, op)
INSTANCE Conform
====
