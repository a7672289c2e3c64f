----------------------------- MODULE ArgsRecvMC -----------------------------
(* Every kind of receiver under every flag mode, fed with every sequence   *)
(* of up to MaxCalls argument lists of Pool.                               *)
EXTENDS Args, TLC, Json
CONSTANTS Cfgs, Pool, MaxCalls
VARIABLES cfg, st, ops, out
vars == <<cfg, st, ops, out>>

Init == cfg \in Cfgs /\ st = ReceiverInit(cfg) /\ ops = <<>> /\ out = <<>>
Next == \E a \in Pool :
        /\ Len(ops) < MaxCalls
        /\ LET r == ReceiverCall(cfg, st, a) IN st' = r.st /\ out' = Append(out, r.obs)
        /\ ops' = Append(ops, a)
        /\ UNCHANGED cfg
        /\ PrintT("BEHAVIOUR " \o ToJson([in |-> [kind |-> cfg.kind, share |-> cfg.share, stop |-> cfg.stop, mode |-> cfg.mode,
                      ckind |-> cfg.ckind, name |-> cfg.name, ops |-> ops'], out |-> out']))

\* Content only changes without an error, lists only grow at their end.
Growing == [][ /\ (IsList(cfg.kind) /\ st.flag # <<0>>) =>
                    PrefixOf(st.flag[2], st'.flag[2])
               /\ (st.cmd # <<0>>) => PrefixOf(st.cmd[2], st'.cmd[2]) ]_vars
\* Texts are UTF-8.
TextIsText == NeedsUtf8(cfg.kind) /\ st.flag # <<0>> =>
    IF IsText(cfg.kind) THEN IsUtf8(st.flag[2])
    ELSE \A k \in 1..Len(st.flag[2]) : IsUtf8(st.flag[2][k])
\* The last toggle decides.
LastToggle == (IsToggle(cfg.kind) /\ cfg.mode = Toggle /\ ops # <<>> /\ ops[Len(ops)] # <<>>) =>
    LET l == ops[Len(ops)]
    IN (l[Len(l)] = <<45, 45>> \o cfg.name => st.flag = <<1>>)

F == <<102>>
Cf(k, s, m, c) == [kind |-> k, share |-> s, mode |-> m, ckind |-> c, name |-> F, stop |-> 0]
CfgsAll == {Cf(k, s, m, 1) : k \in 0..15, s \in 0..2, m \in 0..2}
           \cup {Cf(k, 0, 2, c) : k \in {1, 5, 12}, c \in 0..7}
           \cup {[Cf(k, s, m, c) EXCEPT !.stop = 1] : k \in {1, 4, 7, 10, 13, 14}, s \in 0..2, m \in 0..2, c \in {0}}
           \cup {[Cf(0, 0, 0, c) EXCEPT !.stop = e] : c \in 0..7, e \in {1, 2}}
V == <<118>>
X == <<45, 45, 102>>
NX == <<45, 45, 110, 111, 45, 102>>
PoolAll == { <<X>>, <<NX>>, <<X, V>>, <<X \o <<61>> \o V>>, <<X \o <<61, 255>>>>, <<V>>, <<<<195>>>>,
             <<X, V, X \o <<61, 119>>>>, <<NX, X>>, <<V, X, <<195, 169>>>> }
=============================================================================
