---- MODULE DvarTrace ----
EXTENDS Dvar, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == Begun(in)
Exec(in, st0, op) == Do(in, st0, op)
INSTANCE Conform
====
