------------------------------- MODULE MemMC -------------------------------
(* Every size up to 40 and every kind of object; every member.             *)
EXTENDS Mem, TLC, Json
CONSTANTS MaxLen, Fills
VARIABLES op
V(n, f) == [k \in 1..n |-> (f + 37 * k) % 256]
Kind(n) == {0} \cup (IF n \in {1, 2, 4, 8, 16} THEN {1} ELSE {}) \cup (IF n % 2 = 0 THEN {2} ELSE {}) \cup (IF n % 4 = 0 THEN {3} ELSE {})
Swaps == UNION {{[k |-> k, ty |-> ty, o |-> f % 3, v |-> V(n, f)] : ty \in Kind(n), k \in {1, 3}, f \in Fills} : n \in 0..MaxLen}
Copies == UNION {UNION {{[k |-> 2, ty |-> ty, o |-> n % 3, v |-> V(n, 5), m |-> m] :
                         ty \in {0} \cup (IF m \in {2, 4, 8, 16} /\ m <= n THEN {1} ELSE {})
                                    \cup (IF n \in {1, 2, 4, 8, 16} THEN {2} ELSE {})} : m \in 0..18} : n \in 0..18}
Writes == UNION {{[k |-> k, ty |-> 0, o |-> j % 3, v |-> V(n, 9), j |-> j, x |-> 77] : k \in {4, 6}, j \in 0..(n - 1)} : n \in {1, 2, 3, 4, 7, 8, 12, 16}}
\* Equal, differing in one place, of different size.
Eqs == UNION {{[k |-> 5, v |-> V(n, 3), u |-> u] : u \in {V(m, 3) : m \in 0..9} \cup {[V(n, 3) EXCEPT ![j] = (@ + 128) % 256] : j \in 1..n}} : n \in 0..9}
Members == UNION {{[k |-> 7, t |-> t, f |-> f, c |-> c, x |-> 250] : f \in 0..(Len(Structs[t + 1]) - 1), c \in {3, 200}} : t \in 0..5}
Init == op \in Swaps \cup Copies \cup Writes \cup Eqs \cup Members
Next == FALSE /\ UNCHANGED op
Say == PrintT("BEHAVIOUR " \o ToJson([in |-> [ops |-> <<op>>], out |-> <<Eval(op)>>]))
\* Swapping twice is nothing; members do not overlap and lie inside.
SwapTwice == op.k = 1 => Rev(Rev(op.v)) = op.v
Disjoint == \A t \in 0..5 : \A f, g \in 1..Len(Structs[t + 1]) :
    f < g => Offsets(t)[f] + Structs[t + 1][f][1] <= Offsets(t)[g]
Inside == \A t \in 0..5 : \A f \in 1..Len(Structs[t + 1]) : Offsets(t)[f] + Structs[t + 1][f][1] <= Size(t)
OnlyMember == op.k = 7 =>
    LET o == Offsets(op.t)[op.f + 1]
        n == Structs[op.t + 1][op.f + 1][1]
        e == Eval(op)
        r == SubSeq(e, n + 4, Len(e))
        b == Filled(op.t, op.c)
    IN \A k \in 1..Len(b) : (k <= o \/ k > o + n) => r[k] = b[k]
=============================================================================
