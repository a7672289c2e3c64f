---- MODULE ArgsTrace ----
EXTENDS Args, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == 0
Exec(in, st0, op) == [st |-> 0, obs |-> Call(in.sch, op)]
INSTANCE Conform
====
