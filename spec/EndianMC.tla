------------------------------ MODULE EndianMC ------------------------------
(* Pairs of values with distinct bytes, signs and zeros in every position, *)
(* for every type, order and container.                                    *)
EXTENDS Endian, TLC, Json
CONSTANTS Types, Forms, Vias
VARIABLES in, st, ops, out
vars == <<in, st, ops, out>>
\* Values: counting up, down, one byte set only, all ones, top bit.
Up(w) == [k \in 1..w |-> k]
Val(w) == {Up(w), Rev(Up(w)), [k \in 1..w |-> 255], [k \in 1..w |-> IF k = 1 THEN 128 ELSE 0],
           [k \in 1..w |-> IF k = 1 THEN 127 ELSE 255]}
          \cup {[k \in 1..w |-> IF k = j THEN 1 ELSE 0] : j \in {1, w}}
          \cup {[k \in 1..w |-> IF k = j THEN 200 ELSE 0] : j \in {1, w, (w + 1) \div 2}}
Ins == {[ty |-> t, ord |-> o, form |-> f, via |-> v] : t \in Types, o \in 0..2, f \in Forms, v \in Vias}
Init == /\ in \in Ins
        /\ st = Start(in) /\ ops = <<>> /\ out = <<>>
Do(op) == LET r == Call(in, st, op)
          IN st' = r.st /\ ops' = Append(ops, op) /\ out' = Append(out, r.obs) /\ UNCHANGED in
Vals == Val(Width(in.ty))
Next == CASE Len(ops) = 0 -> \E v \in Vals : Do([k |-> 0, s |-> 1, v |-> v])
          [] Len(ops) = 1 -> \E v \in Vals : Do([k |-> 1, s |-> 2, v |-> v])
          [] Len(ops) = 2 -> Do([k |-> 2, s |-> 1])
          [] Len(ops) = 3 -> Do([k |-> 4, s |-> 2, plus |-> 1, zero |-> 0, w |-> 7])
          [] Len(ops) = 4 -> /\ Do([k |-> 4, s |-> 1, plus |-> 0, zero |-> 1, w |-> 20])
                             /\ PrintT("BEHAVIOUR " \o ToJson([in |-> [ty |-> in.ty, ord |-> in.ord, form |-> in.form, via |-> in.via, ops |-> ops'], out |-> out']))
          [] OTHER -> FALSE
\* Storage is the value in the given order and determines it.
RoundTrip == \A s \in 1..2 : FromStored(in.ord, Stored(in.ord, st[s])) = st[s]
\* Order by value: as of the numbers, where they are small enough to say.
RECURSIVE Value(_)
Value(b) == IF b = <<>> THEN 0 ELSE Value(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
Whole(b) == IF Signed(in.ty) /\ Negative(b) THEN Value(b) - (IF Len(b) = 1 THEN 256 ELSE 65536) ELSE Value(b)
OrderFits == Len(ops) = 3 /\ Width(in.ty) <= 2 =>
    LET a == Whole(st[1])
        b == Whole(st[2])
    IN out[3] = <<IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0>>
PrintFits == Len(ops) = 4 /\ Width(in.ty) <= 2 =>
    LET n == Whole(st[2])
        t == ToString(n)
    IN Len(out[4]) = (IF Len(t) + (IF n < 0 THEN 0 ELSE 1) > 7 THEN Len(t) + (IF n < 0 THEN 0 ELSE 1) ELSE 7)
=============================================================================
