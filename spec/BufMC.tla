------------------------------- MODULE BufMC -------------------------------
(* All sequences of up to MaxCalls calls within the contract.              *)
EXTENDS Buf, TLC, Json
CONSTANTS MaxCalls, Modes
VARIABLES in, st, ops, out
vars == <<in, st, ops, out>>
D == <<3, 8, 1, 9, 2>>
Ins == {[m |-> 0, kind |-> k, data |-> D, limit |-> 0, chunk |-> c] : k \in 0..1, c \in {1, 3}}
       \cup {[m |-> 1, kind |-> k, data |-> d, limit |-> 6, chunk |-> 2] : k \in 0..1, d \in {<<>>, <<7, 7>>}}
       \cup {[m |-> 2, kind |-> k, data |-> D, limit |-> 0, chunk |-> c] : k \in 0..1, c \in {1, 3}}
       \cup {[m |-> 3, kind |-> k, data |-> d, limit |-> 7, chunk |-> c] : k \in 0..2, d \in {<<>>, <<7, 7>>}, c \in {1, 2}}
Init == /\ in \in {x \in Ins : x.m \in Modes}
        /\ st = Start(in) /\ ops = <<>> /\ out = <<>>
Pool ==
    CASE in.m = 0 -> {[k |-> 0, min |-> n, max |-> x] : n \in {0, 1, 3, 6, -1}, x \in {-3, 2}}
                     \cup {[k |-> k, n |-> n] : k \in {1, 2}, n \in 1..2}
                     \cup {[k |-> 3, n |-> n, max |-> x, t |-> t] : n \in 0..2, x \in {-3, -1, 1, 3, 5}, t \in {0, 4, 9, 10}}
      [] in.m = 1 -> {[k |-> 0, v |-> v] : v \in {<<>>, <<4>>, <<5, 6, 7>>, <<1, 2, 3, 4, 5>>}}
                     \cup {[k |-> 1, min |-> n, max |-> x, o |-> o, v |-> v] : n \in {0, 2, 5, -1, -2}, x \in {-3, -1, 2, 9}, o \in 0..1, v \in {<<>>, <<8>>}}
                     \cup {[k |-> k, n |-> n] : k \in {2, 3}, n \in 0..2}
      [] in.m = 2 -> {[k |-> 0, i |-> i, n |-> n] : i \in {0, 1, 4, 5, 6, -1, -2}, n \in {0, 1, 2, 5, -1, -2}}
                     \cup {[k |-> 1, i |-> i, n |-> n] : i \in {0, 1, 4, 5, 6, -1, -2}, n \in {0, 1, 2, 5}}
      [] in.m = 3 -> {[k |-> k, i |-> i, v |-> v] : k \in {0, 1}, i \in {0, 1, 3, 6, -1, -2}, v \in {<<>>, <<4>>, <<5, 6, 7>>}}
                     \cup {[k |-> 2, i |-> i, n |-> n, b |-> 9] : i \in {0, 2, -1, -2}, n \in {0, 3, 6, -1, -2}}
                     \cup {[k |-> 6, i |-> i, n |-> 2] : i \in {1, 7}}
                     \cup {[k |-> 3, i |-> i, e |-> e] : i \in {0, 1, 2, 5}, e \in {0, 1, 3, 63, 64, 255}}
                     \cup {[k |-> 3, i |-> 0, e |-> e] : e \in {31, 32, 62}}
                     \cup {[k |-> 4, n |-> n] : n \in 0..3}
                     \cup {[k |-> 5, i |-> i, n |-> n] : i \in {0, 5, -1, -2}, n \in {1, -1, -2}}
Depth == IF in.m = 2 THEN 1 ELSE MaxCalls
Next == \E op \in Pool :
        /\ Len(ops) < Depth
        /\ Can(in, st, op) /\ ~Own(in, op)
        /\ LET r == Call(in, st, op) IN st' = r.st /\ out' = Append(out, r.obs)
        /\ ops' = Append(ops, op) /\ UNCHANGED in
        /\ (Len(ops') = Depth => PrintT("BEHAVIOUR " \o ToJson([in |-> [ops |-> ops'] @@ in, out |-> out'])))
Op == ops'[Len(ops')]
\* Committed bytes stay; only writing and committing change anything.
KeepsCommitted == [][in.m \in {1, 3} => Take(st'.done, Len(st.done)) = st.done]_vars
RefusedKeeps == [][LET o == out'[Len(out')] IN in.m \in {0, 1} /\ o[1] = 0 => st' = st]_vars
CommitExact == [][in.m \in {1, 3} /\ st'.done # st.done =>
                  (in.m = 1 /\ Op.k = 0) \/ (Op.k = (IF in.m = 1 THEN 2 ELSE 4) /\ Len(st'.done) = Len(st.done) + Op.n)]_vars
\* What was read before is a prefix of the data.
ReadInOrder == in.m = 0 => /\ st.d = SubSeq(D, Len(D) - Len(st.d) + 1, Len(D))
                           /\ st.avail <= Len(st.d)
\* Cells not written are not touched.
OnlyAsked == [][in.m = 3 /\ Op.k \in {0, 1} /\ Op.i >= 0 =>
                \A k \in 1..Len(st'.next) : (k <= Op.i \/ k > Op.i + Len(Op.v)) =>
                    (IF k <= Len(st.next) THEN st'.next[k] = st.next[k] ELSE st'.next[k] = -1)]_vars
=============================================================================
