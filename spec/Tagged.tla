------------------------------- MODULE Tagged -------------------------------
(***************************************************************************)
(* Tagged pointers (lib/osi/src/ptr.rs, NonNull4): an address that is a    *)
(* multiple of four and two bits.  Addresses are four 16-bit limbs.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Aligned(a) == a[4] % 4 = 0
Slot(a, m) == [a |-> a, m |-> m]
Bit(m, b) == IF b = 0 THEN m % 2 ELSE IF b = 1 THEN m \div 2 ELSE 0
WithBit(m, b, f) == IF b = 0 THEN (m \div 2) * 2 + f ELSE IF b = 1 THEN f * 2 + (m % 2) ELSE m

RECURSIVE Cmp(_, _)
Cmp(a, b) == IF a = <<>> THEN 0 ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE Cmp(Tail(a), Tail(b))

\* Everything there is to read: address, tag, its bits one by one, and one
\* bit beyond.
Look(s) == s.a \o <<s.m, Bit(s.m, 0), Bit(s.m, 1), Bit(s.m, 0), Bit(s.m, 1), 0>>

(* Calls on one of two slots: 0 make if aligned (keep otherwise), 1 make,  *)
(* 2 set address, 3 set tag to the low bits of a number, 4 set bit b,      *)
(* 5 set bit 0, 6 set bit 1, 7 compare both, 8 copy to the other.          *)
Call(st, op) ==
    LET s == st[op.s]
        put(v) == [st |-> [st EXCEPT ![op.s] = v], obs |-> <<1>> \o Look(v)]
    IN CASE op.k = 0 -> IF Aligned(op.a) THEN put(Slot(op.a, 0)) ELSE [st |-> st, obs |-> <<0>> \o Look(s)]
         [] op.k = 1 -> put(Slot(op.a, 0))
         [] op.k = 2 -> put([s EXCEPT !.a = op.a])
         [] op.k = 3 -> put([s EXCEPT !.m = op.a[4] % 4])
         [] op.k = 4 -> put([s EXCEPT !.m = WithBit(@, op.b, op.f)])
         [] op.k = 5 -> put([s EXCEPT !.m = WithBit(@, 0, op.f)])
         [] op.k = 6 -> put([s EXCEPT !.m = WithBit(@, 1, op.f)])
         [] op.k = 7 -> LET o == st[3 - op.s]
                            c == Cmp(s.a \o <<s.m>>, o.a \o <<o.m>>)
                        IN [st |-> st, obs |-> <<c>> \o Look(s)]
         [] op.k = 8 -> [st |-> [st EXCEPT ![3 - op.s] = s], obs |-> <<1>> \o Look(s)]
Start == <<Slot(<<0, 0, 0, 4>>, 0), Slot(<<0, 0, 0, 4>>, 0)>>
=============================================================================
