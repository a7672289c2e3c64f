---- MODULE UncaughtTrace ----
EXTENDS Uncaught, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == 0
Exec(in, st0, op) == Call(op)
INSTANCE Conform
====
