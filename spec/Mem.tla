-------------------------------- MODULE Mem --------------------------------
(***************************************************************************)
(* Raw memory helpers and member projection (lib/osi/src/{mem,meta}.rs).   *)
(* Objects are sequences of bytes as in memory.                            *)
(***************************************************************************)
EXTENDS Num

Min(a, b) == IF a < b THEN a ELSE b
Up(n, a) == ((n + a - 1) \div a) * a
Flag(b) == IF b THEN <<1>> ELSE <<0>>

\* Structures with C layout as list of members (size, alignment): byte -
\* 16 bits - byte - 64 bits - three bytes; the like, packed; empty members;
\* nested ones; a tail of open length; long ones.
Structs == <<
    << <<1, 1>>, <<2, 2>>, <<1, 1>>, <<8, 8>>, <<3, 1>> >>,
    << <<1, 1>>, <<4, 1>>, <<2, 1>>, <<16, 1>> >>,
    << <<0, 1>>, <<4, 4>>, <<1, 1>>, <<0, 16>> >>,
    << <<5, 1>>, <<4, 2>>, <<4, 4>>, <<1, 1>> >>,
    << <<4, 4>>, <<2, 2>> >>,
    << <<300, 1>>, <<2, 2>>, <<33001, 1>>, <<4, 4>>, <<33000, 1>>, <<1, 1>> >> >>
RECURSIVE OffsetsFrom(_, _)
OffsetsFrom(ms, at) == IF ms = <<>> THEN <<>>
                       ELSE LET o == Up(at, ms[1][2]) IN <<o>> \o OffsetsFrom(Tail(ms), o + ms[1][1])
Offsets(t) == OffsetsFrom(Structs[t + 1], 0)
MaxAlign(ms) == CHOOSE a \in {ms[k][2] : k \in 1..Len(ms)} : \A k \in 1..Len(ms) : ms[k][2] <= a
\* The open one has a tail of three bytes behind its members.
Size(t) == LET ms == Structs[t + 1]
               o == Offsets(t)
               e == o[Len(o)] + ms[Len(ms)][1] + (IF t = 4 THEN 3 ELSE 0)
           IN Up(e, MaxAlign(ms))
Filled(t, f) == [k \in 1..Size(t) |-> (f + 7 * (k - 1)) % 256]
Put(b, at, v) == LET n == Len(v) IN [k \in 1..Len(b) |-> IF k > at /\ k <= at + n THEN v[k - at] ELSE b[k]]

(* 1 byte-swapped copy of v                                                *)
(* 2 copy of v as m bytes: what is known of it                             *)
(* 3 byte view of v        4 write x at position j through it              *)
(* 5 raw equality of v and u                                               *)
(* 6 views as possibly uninitialized and back, writing x at position j     *)
(* 7 member f of structure t, filled from c: offset, content, and the      *)
(*   structure after writing v (repeated to its size) to the member;       *)
(*   way back from the member to the structure                             *)
Eval(op) ==
    CASE op.k = 1 -> Rev(op.v)
      [] op.k = 2 -> SubSeq(op.v, 1, Min(Len(op.v), op.m))
      [] op.k = 3 -> op.v
      [] op.k \in {4, 6} -> [op.v EXCEPT ![op.j + 1] = op.x]
      [] op.k = 5 -> Flag(op.v = op.u)
      [] op.k = 7 -> LET o == Offsets(op.t)[op.f + 1]
                         n == Structs[op.t + 1][op.f + 1][1]
                         b == Filled(op.t, op.c)
                         v == [k \in 1..n |-> (op.x + k - 1) % 256]
                     IN <<o, 1>> \o SubSeq(b, o + 1, o + n) \o <<-1>> \o Put(b, o, v)
Start == 0
Call(st, op) == [st |-> st, obs |-> Eval(op)]
=============================================================================
