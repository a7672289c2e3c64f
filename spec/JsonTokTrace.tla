--------------------------- MODULE JsonTokTrace ---------------------------
EXTENDS JsonTok, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == Idle
Exec(in, t, op) == LET r == Call(in.f, t, op) IN [st |-> r.t, obs |-> r.obs]
INSTANCE Conform
=============================================================================
