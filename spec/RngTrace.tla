---- MODULE RngTrace ----
EXTENDS Rng, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == <<>>
Exec(in, st0, op) == Call(st0, op)
INSTANCE Conform
====
