------------------------------- MODULE ArgsMC -------------------------------
(* Every argument list up to MaxArgs over ArgPool against every schema of  *)
(* Schemas.  Each list is printed with the outcome demanded, for replay.   *)
EXTENDS Args, TLC, Json

CONSTANTS Schemas, ArgPool, MaxArgs,
          What          \* "parse" or "help"

VARIABLES sch, args, p, out
vars == <<sch, args, p, out>>

Behaviour(s, a) ==
    LET op == [k |-> 0, args |-> a, b |-> 0]
        txt == [in |-> [sch |-> s, ops |-> <<op>>], out |-> <<Call(s, op)>>]
        hin == [sch |-> s, entry |-> <<112>>, info |-> <<105>>, ops |-> <<op>>]
        hlp == [in |-> hin, out |-> <<HelpCall(hin, -1, op).obs>>]
    IN PrintT("BEHAVIOUR " \o ToJson(IF What = "help" THEN hlp ELSE txt))

Init == /\ sch \in Schemas
        /\ args = <<>> /\ p = Start /\ out = <<>>
        /\ Behaviour(sch, args)

Next == \E a \in ArgPool :
        /\ Len(args) < MaxArgs
        /\ args' = Append(args, a)
        /\ LET r == Argument(sch, p, a) IN p' = r.p /\ out' = out \o r.out
        /\ UNCHANGED sch
        /\ Behaviour(sch, args')

(************************** what is required ******************************)
Final == out \o Finish(sch, p)
Reports(S) == Cardinality({k \in 1..Len(out) : out[k][1] \in S})

\* Every argument is one name of the path, or the lone double dash, or gives
\* one report; a value given separately shares the report of its flag.
Separate == Cardinality({k \in 1..Len(out) : out[k][1] = 3
                          /\ LET n == SubSeq(out[k], 6, 5 + out[k][5])
                             IN \E j \in 1..(Len(args)-1) : args[j] = <<45, 45>> \o n})
Accounted ==
    Len(args) <= Len(p.path) + Len(out) + Separate
                 + (IF p.fdone THEN 1 ELSE 0) + (IF p.want # <<>> THEN 1 ELSE 0)

\* Only commands on the selected path get anything; parameters go to the
\* selected command alone.
OnPath(c) == PrefixOf(sch[c].path, p.path)
Scoped == \A k \in 1..Len(out) :
            /\ out[k][1] \in {1, 2, 3} => OnPath(out[k][2])
            /\ out[k][1] = 4 => sch[out[k][2]].path = p.path

\* A flag is taken from the innermost command on the path that defines it.
InnermostWins == \A k \in 1..Len(out) :
    out[k][1] = 1 =>
        LET c == out[k][2]
            n == sch[c].flags[out[k][3]].n
            at == AtRank(sch, out[k][4])
        IN \A d \in 1..Len(sch) :
              (PrefixOf(sch[d].path, sch[at].path) /\ FlagIn(sch, d, n) # 0)
                 => Len(sch[d].path) <= Len(sch[c].path)

\* The selected command learns the end once, as the last thing.
EndOnce == LET ends == {k \in 1..Len(Final) : Final[k][1] = 5}
               c == CommandOf(sch, p.path)
           IN IF c = 0 THEN ends = {}
              ELSE ends = {Len(Final)} /\ Final[Len(Final)] = EvEnd(c)

\* Behind the first parameter no command is entered, behind a lone double
\* dash there is nothing but parameters.
Monotone == [][ /\ (p.cdone => p'.path = p.path /\ p'.cdone)
                /\ (p.fdone => p'.fdone)
                /\ (p.fdone /\ p.want = <<>> => Len(out') = Len(out) + 1
                       /\ out'[Len(out')][1] \in {4, 27}) ]_vars

(************************** constants *************************************)
A == <<97>>  B == <<98>>  NoA == <<110, 111, 45, 97>>
DD(n) == <<45, 45>> \o n
Fl(n, m, h) == [n |-> n, m |-> m, h |-> <<>>, help |-> h]
FlagPatterns == {
    \* flags by length of the path: none, a, b / at each level others
    <<<<Fl(A, Set, 1)>>, <<Fl(A, Toggle, 1), Fl(B, Parse, 0)>>, <<Fl(B, Parse, 0)>>>>,
    <<<<Fl(A, Parse, 0), Fl(NoA, Set, 1)>>, <<>>, <<Fl(A, Toggle, 1)>>>>,
    <<<<>>, <<Fl(B, Set, 1), Fl(A, Toggle, 0)>>, <<Fl(A, Set, 0), Fl(NoA, Toggle, 1)>>>> }
Paths == << <<A, B>>, <<>>, <<B>>, <<A>>, <<A, A>> >>
SchemaOf(S, pat) ==
    LET sel == SelectSeq([k \in 1..Len(Paths) |-> <<k, Paths[k]>>], LAMBDA e : e[1] \in S)
    IN [k \in 1..Len(sel) |-> [path |-> sel[k][2], flags |-> pat[Len(sel[k][2]) + 1],
                               h |-> IF Len(sel[k][2]) = 1 THEN <<<<104>>>> ELSE <<>>]]
SchemasAll == {SchemaOf(S, pat) : S \in SUBSET (1..Len(Paths)), pat \in FlagPatterns}
PoolParse == { A, B, <<45, 45>>, DD(A), DD(NoA), DD(B), DD(B) \o <<61, 118>>, DD(A) \o <<61>>,
               <<45, 120>>, <<112>>, <<255>> }
PoolHelp == { A, B, DD(A), DD(NoA), DD(B), <<112>> }
=============================================================================
