------------------------------- MODULE RngMC -------------------------------
(* Every sequence of up to MaxCalls calls on generators created from a few *)
(* seeds.                                                                  *)
EXTENDS Rng, TLC, Json
CONSTANTS Seeds, MaxCalls, MaxGens, Jumps
VARIABLES rs, ops, out
vars == <<rs, ops, out>>
Kind(g) == rs[g].kind
Pool ==
    IF rs = <<>>
    THEN {[k |-> k, g |-> 1, v |-> s] : k \in 0..1, s \in Seeds}
         \cup {[k |-> 2, g |-> 1, v |-> a \o b \o c \o a] : a \in Seeds, b \in Seeds, c \in Seeds}
    ELSE {[k |-> k, g |-> g] : k \in {3, 4, 5, 12}, g \in {g \in 1..Len(rs) : Kind(g) < 3}}
         \cup {[k |-> 6, g |-> g] : g \in {g \in 1..Len(rs) : Kind(g) = 1}}
         \cup {[k |-> k, g |-> g] : k \in {7, 8}, g \in {g \in 1..Len(rs) : Kind(g) = 2}}
         \cup {[k |-> k, g |-> g] : k \in {4} \cup Jumps, g \in {g \in 1..Len(rs) : Kind(g) = 3}}
         \cup {[k |-> 11, g |-> 1, h |-> h] : h \in {h \in 1..Len(rs) : Kind(h) = Kind(1)}}
Init == rs = <<>> /\ ops = <<>> /\ out = <<>>
Next == \E op \in Pool :
        /\ Len(ops) < MaxCalls
        /\ LET r == Call(rs, op) IN rs' = r.st /\ out' = Append(out, r.obs)
        /\ Len(rs') <= MaxGens
        /\ ops' = Append(ops, op)
        /\ (Len(ops') = MaxCalls => PrintT("BEHAVIOUR " \o ToJson([in |-> [ops |-> ops'], out |-> out'])))

\* Increments are odd: all 2^64 states are visited.
Odd == \A g \in 1..Len(rs) : Kind(g) < 3 => rs[g].g[4] % 2 = 1
\* xoshiro never reaches its fixed point.
NonZero == \A g \in 1..Len(rs) : Kind(g) = 3 => rs[g].s # <<Zero4, Zero4, Zero4, Zero4>>
\* Splitting equals advancing twice.
SplitTwice == \A g \in 1..Len(rs) : Kind(g) < 3 => Fork(rs[g]).r = Next64(Next64(rs[g]).r).r
\* Only the generator drawn from changes.
Local == [][\A g \in 1..Len(rs) : (rs'[g] # rs[g]) => ops'[Len(ops')].g = g]_vars
\* Jumping commutes with drawing.
Commutes == (Jumps # {} /\ Len(rs) = 1 /\ Kind(1) = 3) =>
    /\ XoStep(XoJump(rs[1], Jump128).s) = XoJump(XoNext(rs[1]).r, Jump128).s
    /\ XoStep(XoJump(rs[1], Jump192).s) = XoJump(XoNext(rs[1]).r, Jump192).s
SeedsA == {Zero4, <<1, 2, 3, 4>>, <<65535, 65535, 65535, 65535>>}
=============================================================================
