------------------------------- MODULE HmacMC -------------------------------
(* Every sequence of up to MaxCalls calls under keys of every decisive     *)
(* length.                                                                 *)
EXTENDS Sha256, TLC, Json
CONSTANTS KeyLens, Sizes, MaxCalls
VARIABLES key, msg, ops, out
Content(n, len) == [i \in 1..len |-> ((n + i) * 53 + 7) % 256]
Calls == {[k |-> 0, v |-> Content(Len(msg), n)] : n \in Sizes}
         \cup {[k |-> 1, n |-> n] : n \in Sizes}
         \cup {[k |-> 2, n |-> 0], [k |-> 3, n |-> 0]}
Init == key \in {Content(200, n) : n \in KeyLens} /\ msg = <<>> /\ ops = <<>> /\ out = <<>>
Next == \E op \in Calls :
        /\ Len(ops) < MaxCalls
        /\ LET r == HmacCall(key, msg, op) IN msg' = r.st /\ out' = Append(out, r.obs)
        /\ ops' = Append(ops, op)
        /\ UNCHANGED key
        /\ (op.k = 2 => PrintT("BEHAVIOUR " \o ToJson([in |-> [plain |-> Len(ops) % 3, key |-> key, ops |-> ops'], out |-> out'])))
\* A key is as good as itself with trailing zeros, up to a block; longer
\* keys are as good as their digest.
KeyForms == /\ Len(Key(key)) = 64
            /\ (Len(key) < 64 => Key(key) = Key(Append(key, 0)))
            /\ (Len(key) > 64 => Key(key) = Key(Sha(key)))
\* The reset and the finish leave nothing behind.
Fresh == (ops # <<>> /\ ops[Len(ops)].k \in {2, 3}) => msg = <<>>
\* RFC 4231, case 2.
Known == SubSeq(Hmac(<<74, 101, 102, 101>>, <<119, 104, 97, 116, 32, 100, 111, 32, 121, 97, 32, 119, 97, 110, 116,
             32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>), 1, 8)
         = <<91, 220, 193, 70, 191, 96, 117, 78>>
ASSUME Known
=============================================================================
