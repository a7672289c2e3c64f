---- MODULE StrTrace ----
EXTENDS Str, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == <<>>
Exec(in, st0, op) == Call(in, st0, op)
INSTANCE Conform
====
