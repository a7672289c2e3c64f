------------------------------- MODULE OwnMC -------------------------------
(* Every sequence of up to MaxCalls calls that make sense, on objects of   *)
(* every form.                                                             *)
EXTENDS Own, TLC, Json, FiniteSets
CONSTANTS Forms, MaxCalls, MaxHandles, MaxObjs
VARIABLES s, ops, out
vars == <<s, ops, out>>
Kinds == {2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 18, 19, 20}
Pool == (IF Len(s.objs) < MaxObjs /\ Len(ops) < MaxObjs
         THEN {[k |-> 1, h |-> 1, f |-> f, v |-> 5 + Len(s.objs)] : f \in Forms} ELSE {})
        \cup {[k |-> k, h |-> h] : k \in Kinds, h \in 1..Len(s.hs)}
        \cup {[k |-> 8, h |-> h, v |-> 9] : h \in 1..Len(s.hs)}
        \cup {[k |-> 9, h |-> h, j |-> Len(ops)] : h \in 1..Len(s.hs)}
        \cup {[k |-> k, h |-> h, g |-> g] : k \in {16, 17}, h \in 1..Len(s.hs), g \in 1..Len(s.hs)}
Init == s = New /\ ops = <<>> /\ out = <<>>
Next == \E op \in Pool :
        /\ Len(ops) < MaxCalls
        /\ Can(s, op)
        /\ LET r == Call(s, op) IN s' = r.st /\ out' = Append(out, r.obs)
        /\ Len(s'.hs) <= MaxHandles
        /\ ops' = Append(ops, op)
        /\ (Len(ops') = MaxCalls =>
              PrintT("BEHAVIOUR " \o ToJson([in |-> [ty |-> (Len(out') + Len(s'.hs)) % 3, ops |-> ops'], out |-> out'])))

\* Owners of an object among the handles; a detached owner still counts.
Owners(o) == {h \in 1..Len(s.hs) : /\ s.hs[h].o = o
                                   /\ \/ s.hs[h].f \in Owning
                                      \/ s.hs[h].f \in {Once, PinOnce} /\ s.hs[h].from \in Owning}
Live(o) == {h \in 1..Len(s.hs) : s.hs[h].o = o /\ s.hs[h].f # Dead}
\* Never twice; dropped means nobody owns it any more; and without detached
\* handles being forgotten, nobody owning it means dropped.
DropOnce == \A o \in 1..Len(s.objs) : s.objs[o].drops \in 0..1
NoDangling == \A o \in 1..Len(s.objs) : s.objs[o].drops = 1 => Live(o) = {}
Forgotten(o) == \E h \in 1..Len(s.hs) : s.hs[h].o = o /\ s.hs[h].f = Dead /\ s.hs[h].from \in Owning
CountFits == \A o \in 1..Len(s.objs) : ~Forgotten(o) => s.objs[o].n = Cardinality(Owners(o))
\* Borrowed objects are never dropped.
BorrowKeeps == [][\A o \in 1..Len(s.objs) : s.objs[o].n = 0 => s'.objs[o].drops = s.objs[o].drops]_vars
\* Conversions change neither value nor identity.
OnlyWriteWrites == [][\A o \in 1..Len(s.objs) : s'.objs[o].v # s.objs[o].v => ops'[Len(ops')].k = 8]_vars
SameObject == [][\A h \in 1..Len(s.hs) : s'.hs[h].o = s.hs[h].o]_vars
=============================================================================
