------------------------------ MODULE Conform ------------------------------
(* Steps a specification through recorded histories of the real code.      *)
(* Cases is the sequence of histories: in (with the calls in.ops) and out  *)
(* (one outcome per call).  InitSt(in) is the state before the first call, *)
(* Exec(in, st, op) the transition: a record of st and the outcome obs.    *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Cases, InitSt(_), Exec(_, _, _)
VARIABLES i, pos, st, ok

Init == /\ i \in 1..Len(Cases)
        /\ pos = 0
        /\ st = InitSt(Cases[i].in)
        /\ ok = TRUE

Next == /\ ok
        /\ pos < Len(Cases[i].in.ops)
        /\ LET r == Exec(Cases[i].in, st, Cases[i].in.ops[pos + 1])
               same == r.obs = Cases[i].out[pos + 1]
           IN /\ st' = r.st
              /\ ok' = same
              /\ IF same THEN TRUE ELSE PrintT(<<"MISMATCH", i, pos + 1, r.obs>>)
        /\ pos' = pos + 1
        /\ UNCHANGED i

Conforms == ok

(* What TLC prints of the states that lead to a refused outcome. *)
Where == [i |-> i, pos |-> pos, ok |-> ok]
=============================================================================
