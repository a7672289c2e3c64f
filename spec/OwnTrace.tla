---- MODULE OwnTrace ----
EXTENDS Own, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == New
Exec(in, st0, op) == Call(st0, op)
INSTANCE Conform
====
