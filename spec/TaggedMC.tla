------------------------------ MODULE TaggedMC ------------------------------
(* Every sequence of up to MaxCalls calls.                                 *)
EXTENDS Tagged, TLC, Json
CONSTANTS Addrs, MaxCalls
VARIABLES st, ops, out
vars == <<st, ops, out>>
Good == {a \in Addrs : Aligned(a)}
Calls == {[k |-> 0, s |-> 1, a |-> a] : a \in Addrs}
         \cup {[k |-> k, s |-> s, a |-> a] : k \in {2}, s \in 1..2, a \in Good}
         \cup {[k |-> 3, s |-> 1, a |-> a] : a \in Addrs}
         \cup {[k |-> 4, s |-> 1, b |-> b, f |-> f] : b \in {0, 1, 2, 3, 63}, f \in 0..1}
         \cup {[k |-> k, s |-> 1, f |-> f] : k \in {5, 6}, f \in 0..1}
         \cup {[k |-> k, s |-> 1] : k \in {7, 8}}
Init == st = Start /\ ops = <<>> /\ out = <<>>
Next == \E op \in Calls :
        /\ Len(ops) < MaxCalls
        /\ LET r == Call(st, op) IN st' = r.st /\ out' = Append(out, r.obs)
        /\ ops' = Append(ops, op)
        /\ (Len(ops') = MaxCalls => PrintT("BEHAVIOUR " \o ToJson([in |-> [ty |-> Len(out') % 3, ops |-> ops'], out |-> out'])))
Fits == \A s \in 1..2 : Aligned(st[s].a) /\ st[s].m \in 0..3
Op == ops'[Len(ops')]
\* No call changes address and tag at once, save making a new one and copying.
Independent == [][\A s \in 1..2 : (st'[s].a # st[s].a /\ st'[s].m # st[s].m) => Op.k \in {0, 1, 8}]_vars
OneBit == [][Op.k \in {4, 5, 6} => (\A b \in 0..1 : (Bit(st'[Op.s].m, b) # Bit(st[Op.s].m, b)) =>
                                       b = (IF Op.k = 4 THEN Op.b ELSE Op.k - 5))]_vars
AddrsA == {<<0, 0, 0, 4>>, <<0, 0, 0, 5>>, <<0, 0, 0, 6>>, <<0, 0, 0, 7>>, <<32768, 0, 0, 8>>,
           <<65535, 65535, 65535, 65532>>, <<65535, 65535, 65535, 65535>>}
=============================================================================
