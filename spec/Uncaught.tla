------------------------------ MODULE Uncaught ------------------------------
(* Wrapped errors (lib/osi/src/error.rs): call k wraps a payload that      *)
(* shows as D<v> and d<v>; boxed payloads are dropped along.  Outcome:     *)
(* whether there is a source, both texts, drops before and after.          *)
EXTENDS Integers, Sequences
RECURSIVE Num(_)
Num(n) == IF n < 10 THEN <<48 + n>> ELSE Num(n \div 10) \o <<48 + (n % 10)>>
Uncaught == <<85, 110, 99, 97, 117, 103, 104, 116>>
Static == <<83, 116, 97, 116, 105, 99>>
Kind == << <<65, 110, 121>>, <<68, 101, 98, 117, 103>>, <<68, 105, 115, 112, 108, 97, 121>>, <<69, 114, 114, 111, 114>> >>
Texts(op) ==
    LET j == op.k % 4
        name == (IF op.k >= 8 THEN Static ELSE <<>>) \o Kind[j + 1]
        debug == <<68>> \o Num(op.v)
        display == <<100>> \o Num(op.v)
        long == Uncaught \o <<58, 58>> \o name \o <<40>>
                \o (IF j = 0 THEN <<>> ELSE IF j = 2 THEN display ELSE debug) \o <<41>>
        short == Uncaught \o <<40>> \o name \o <<41>>
                 \o (IF j = 0 THEN <<>> ELSE <<58, 32>> \o (IF j = 1 THEN debug ELSE display))
    IN long \o <<124>> \o short
Call(op) == LET src == IF op.k % 4 = 3 THEN op.s ELSE 0
            IN [st |-> 0, obs |-> <<src>> \o Texts(op) \o <<0, IF op.k < 8 THEN 1 ELSE 0>>]
=============================================================================
