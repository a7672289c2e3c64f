------------------------------ MODULE LayoutMC ------------------------------
(* Every schema of up to MaxCommands commands, declared in every order, as *)
(* seen by inspection; all searches and iterations.                        *)
EXTENDS Args, Json, FiniteSets

CONSTANTS PathPool, MaxCommands, Probes
VARIABLES sch

A == <<97>>  B == <<98>>  AB == <<97, 98>>  E == <<>>  U == <<195, 169>>
PathsAll == { <<>>, <<A>>, <<A, A>>, <<A, B, A>>, <<AB>>, <<B, A>>, <<U>> }
PathsMore == PathsAll \cup { <<E>>, <<A, A, A>> }
ProbesAll == PathsMore \cup { <<B>>, <<A, B>>, <<AB, A>>, <<A, E>>, <<U, U>> }
\* Flags go with the path; they are declared backwards, forwards, or mixed.
Fl(n, m) == [n |-> n, m |-> m]
FlagsOf(path) == CASE Len(path) = 0 -> <<Fl(U, 0), Fl(B, 1), Fl(AB, 2), Fl(A, 0)>>
                   [] Len(path) = 1 -> IF path[1] = AB THEN <<>> ELSE <<Fl(A, 1), Fl(AB, 0)>>
                   [] Len(path) = 2 -> <<Fl(B, 2), Fl(E, 1), Fl(U, 0)>>
                   [] OTHER -> <<Fl(AB, 2)>>
Names == {A, B, AB, E, U, <<96>>, <<255>>}

Calls(s) == SetToSeq({[k |-> 1]}
    \cup {[k |-> 2, path |-> p] : p \in Probes}
    \cup {[k |-> 3, at |-> c, n |-> n] : c \in 0..(Len(s) - 1), n \in Names \ {<<255>>}}
    \cup {[k |-> 4, at |-> c] : c \in 0..Len(s)})
CallsList(s) == <<[k |-> 1]>>
Behaviour(s) == LET ops == Calls(s)
                IN PrintT("BEHAVIOUR " \o ToJson([in |-> [sch |-> s, ops |-> ops],
                     out |-> [k \in 1..Len(ops) |-> Call(s, ops[k])]]))

Init == sch = <<>> /\ Behaviour(sch)
Next == \E p \in PathPool :
        /\ Len(sch) < MaxCommands
        /\ \A c \in 1..Len(sch) : sch[c].path # p
        /\ sch' = Append(sch, [path |-> p, flags |-> FlagsOf(p)])
        /\ Behaviour(sch')

\* The other way round: every set of paths of a whole tree, in one order.
Steps == {A, B}
Tree == UNION {[1..n -> Steps] : n \in 0..3}
InitSet == \E S \in {T \in SUBSET Tree : Cardinality(T) <= MaxCommands} : LET s == Reverse(SetToSeq(S)) IN
           /\ sch = [k \in 1..Len(s) |-> [path |-> s[k], flags |-> <<>>]]
                              /\ Behaviour(sch)
NextSet == FALSE /\ UNCHANGED sch

(************************** what is required ******************************)
Up(c) == IF sch[c].path = <<>> THEN 0
         ELSE Innermost(sch, SubSeq(sch[c].path, 1, Len(sch[c].path) - 1), 1..Len(sch))
\* The order is that of a walk through the tree: a command comes behind the
\* one above it, and whatever lies between them is below that one as well.
PreOrder == \A c \in 1..Len(sch) : Up(c) # 0 =>
    /\ Rank(sch, Up(c)) < Rank(sch, c)
    /\ \A d \in 1..Len(sch) : (Rank(sch, Up(c)) < Rank(sch, d) /\ Rank(sch, d) <= Rank(sch, c))
          => PrefixOf(sch[Up(c)].path, sch[d].path)
\* What lies above is the nearest there is.
Nearest == \A c, d \in 1..Len(sch) :
    (d # c /\ PrefixOf(sch[d].path, sch[c].path)) => (Up(c) # 0 /\ Len(sch[d].path) <= Len(sch[Up(c)].path))
\* A search finds what is there.
Found == \A c \in 1..Len(sch) : SearchCommand(sch, sch[c].path) = <<1, Rank(sch, c)>>
\* Where something would have to be is behind all that is less.
Between == \A p \in Probes : LET r == SearchCommand(sch, p)[2]
    IN \A c \in 1..Len(sch) : (Rank(sch, c) < r) = PathLess(sch[c].path, p)
=============================================================================
