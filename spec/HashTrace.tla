---- MODULE HashTrace ----
EXTENDS Sha256, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == Empty
Exec(in, st0, op) == HashCall(st0, op)
INSTANCE Conform
====
