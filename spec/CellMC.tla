------------------------------- MODULE CellMC -------------------------------
(* All layouts; all sequences of up to MaxCalls calls on cells, owning     *)
(* cells and pointers of every kind.                                       *)
EXTENDS Cell, TLC, Json, FiniteSets
CONSTANTS MaxCalls, Kinds
VARIABLES in, st, ops, out
vars == <<in, st, ops, out>>
Layouts == {[m |-> 0, kind |-> 0]}
Cells == {[m |-> 1, kind |-> k, ty |-> t, off |-> o] : k \in Kinds, t \in 0..11, o \in {0, 1, 3}}
Owners == {[m |-> 2, kind |-> k, off |-> o] : k \in Kinds, o \in {0, 1}}
Ptrs == {[m |-> 3, kind |-> k, target |-> t] : k \in 0..5, t \in 0..6}
Init == /\ in \in Layouts \cup Cells \cup Owners \cup Ptrs
        /\ st = Start(in) /\ ops = <<>> /\ out = <<>>
Asc(n) == [k \in 1..n |-> k]
Top(n) == [k \in 1..n |-> IF k = n THEN 129 ELSE 0]
Vals == LET w == Width(in.ty) IN {Asc(w), Top(w)}
Addrs == {Zeros(8), Asc(8), [k \in 1..8 |-> 255], Num8(3)}
Fmt(k, s) == [k |-> k, s |-> s, plus |-> Len(ops) % 2, zero |-> 1 - (Len(ops) % 2), w |-> 5 * Len(ops)]
Pool == CASE in.m = 0 -> {[k |-> 0, abi |-> a, t |-> t] : a \in 0..4, t \in 0..15}
                         \cup {[k |-> 1, n |-> n, f |-> f] : n \in {1, 2, 4, 8, 16, 32, 64, 128}, f \in 0..1}
                         \cup {[k |-> 2, t |-> t] : t \in 0..18}
                         \cup {[k |-> 3, t |-> t] : t \in (0..13) \cup {14, 15, 18}}
                         \cup {[k |-> 4, t |-> t, n |-> n] : t \in (0..13) \cup {14, 15, 18}, n \in {1, 2, 4, 8, 16, 32, 64, 128}}
          [] in.m = 1 -> {[k |-> k, s |-> 1, v |-> v] : k \in {0, 1, 2, 6, 11}, v \in Vals}
                         \cup {[k |-> k, s |-> 1] : k \in {3, 4, 5, 7, 9, 12}} \cup {[k |-> 8, s |-> 2]}
                         \cup (IF in.ty = 10 THEN {} ELSE {Fmt(10, 1)})
          [] in.m = 2 -> {[k |-> k] : k \in {0, 1, 2, 3, 5, 7}}
          [] in.m = 3 -> {[k |-> k, s |-> 1, v |-> v] : k \in 0..3, v \in Addrs}
                         \cup {[k |-> k, s |-> 1, v |-> v] : k \in 4..6, v \in Addrs \ {Zeros(8)}}
                         \cup {[k |-> k, s |-> 1] : k \in {7, 8, 11, 12}} \cup {[k |-> 9, s |-> 2]}
                         \cup {Fmt(10, 1)}
                         \cup {[k |-> k, s |-> 1, c |-> <<7>>, d |-> <<9>>] : k \in 13..14}
Depth == IF in.m = 0 THEN 1 ELSE IF in.m = 2 THEN MaxCalls + 2 ELSE MaxCalls
Next == \E op \in Pool :
        /\ Len(ops) < Depth
        /\ LET r == Call(in, st, op) IN st' = r.st /\ out' = Append(out, r.obs)
        /\ ops' = Append(ops, op) /\ UNCHANGED in
        /\ (Len(ops') = Depth => PrintT("BEHAVIOUR " \o ToJson([in |-> [ops |-> ops'] @@ in, out |-> out'])))
\* Every value but the one inside and the default one is dropped just once.
Accounted == in.m = 2 => /\ \A n \in 1..(st.next - 1) :
                               Cardinality({k \in 1..Len(st.log) : st.log[k] = n}) = (IF n = st.cell THEN 0 ELSE 1)
\* A pointer is never null.
NeverNull == in.m = 3 => ~IsZero(st[1]) /\ ~IsZero(st[2])
\* Sizes are multiples of alignments.
LayoutFits == in.m = 0 => \A op \in Pool : LET t == TypeOf(op) IN t.size % t.align = 0
\* Only calls that write change the content.
ReadsKeep == [][LET op == ops'[Len(ops')] IN
                (in.m = 1 /\ op.k \in {4, 5, 7, 8, 10}) \/ (in.m = 3 /\ op.k \in {8, 9, 10, 12, 13, 14}) => st' = st]_vars
=============================================================================
