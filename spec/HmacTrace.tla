---- MODULE HmacTrace ----
EXTENDS Sha256, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == <<>>
Exec(in, st0, op) == HmacCall(in.key, st0, op)
INSTANCE Conform
====
