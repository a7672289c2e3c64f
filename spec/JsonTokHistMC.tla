--------------------------- MODULE JsonTokHistMC ---------------------------
(* Every sequence of up to MaxCalls calls of Pool on one tokenizer: pieces *)
(* of text, ends of input, resets, copies, receivers that abort.           *)
EXTENDS JsonTok, TLC, Json

CONSTANTS Pool, MaxCalls, FlagSets
VARIABLES f, t, ops, out, since
vars == <<f, t, ops, out, since>>

Op(k, v, b, m) == [k |-> k, v |-> v, b |-> b, m |-> m]

Init == f \in FlagSets /\ t = Idle /\ ops = <<>> /\ out = <<>> /\ since = <<>>

Do(op) ==
    /\ Len(ops) < MaxCalls
    /\ LET r == Call(f, t, op) IN
       /\ t' = r.t
       /\ out' = Append(out, r.obs)
       /\ since' = IF op.k \in {1, 2, 3} \/ r.obs[1] = 2 THEN <<>> ELSE since \o op.v
    /\ ops' = Append(ops, op)
    /\ UNCHANGED f
    /\ IF Len(ops') = MaxCalls
       THEN PrintT("BEHAVIOUR " \o ToJson([in |-> [f |-> f, ops |-> ops'], out |-> out']))
       ELSE TRUE

Next == \E op \in Pool : Do(op)

\* The state is the one a new tokenizer has after what was pushed since the
\* last end, reset or abort.
Fresh == t = Push(f, Idle, since, 0).t
\* The status answers whether a token is open.
Status == out # <<>> => LET o == out[Len(out)] IN o[2] = Busy(t) /\ (o[1] = 2 => t = Idle)

PoolQuick == {
    Op(0, <<34>>, 0, 0), Op(0, <<49>>, 0, 1), Op(0, <<46, 49>>, 0, 0), Op(0, <<110, 117>>, 0, 0),
    Op(0, <<108, 108>>, 0, 1), Op(0, <<44, 32, 91>>, 1, 0), Op(0, <<45, 120>>, 1, 0),
    Op(0, <<92, 117, 100, 56, 48, 48>>, 0, 0), Op(0, <<92>>, 0, 0), Op(0, <<120, 34>>, 2, 1),
    Op(0, <<47, 47>>, 0, 0), Op(0, <<10>>, 1, 0), Op(0, <<>>, 0, 0), Op(1, <<32, 44>>, 0, 0), Op(1, <<34, 34>>, 1, 0),
    Op(2, <<>>, 0, 0), Op(3, <<>>, 0, 0), Op(3, <<>>, 1, 0), Op(4, <<>>, 0, 0) }
=============================================================================
