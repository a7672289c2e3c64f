---- MODULE ArgsHelpTrace ----
EXTENDS Args, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, pos, st, ok
InitSt(in) == -1
Exec(in, st0, op) == HelpCall(in, st0, op)
INSTANCE Conform
====
