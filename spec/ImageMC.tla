------------------------------ MODULE ImageMC ------------------------------
(* Every byte of every structure on its own, every field set on its own,   *)
(* every constant, and checksums of short data and at the wrap-around.     *)
EXTENDS Image, TLC, Json, FiniteSets
CONSTANTS Kinds, Of, Tables, Bytes, MaxLen
VARIABLES op, out
vars == <<op, out>>

Probe == {1, 128, 255}
Ground == {0, 170}
Image(n, g, p, v) == [k \in 1..n |-> IF k = p THEN v ELSE g]
Ramp(n) == [k \in 1..n |-> k]
Table(t) == CASE t \in {0, 1} -> ElfConst [] t = 2 -> PeConst [] t = 3 -> MzConst [] OTHER -> ErrConst
Runs(t) == CASE t \in {0, 1} -> ElfBytes [] t = 2 -> PeBytes [] t = 3 -> MzBytes [] OTHER -> <<>>

RECURSIVE Data(_)
Data(n) == IF n = 0 THEN {<<>>} ELSE {Append(d, b) : d \in Data(n - 1), b \in Bytes}

Ops ==
    UNION {
        IF 0 \in Kinds THEN {[k |-> 0, s |-> s] : s \in Of} ELSE {},
        IF 1 \in Kinds THEN UNION {{[k |-> 1, s |-> s, b |-> Image(Structs[s + 1].size, g, p, v)] :
                    g \in Ground, p \in 0..Structs[s + 1].size, v \in Probe} : s \in Of}
             \cup {[k |-> 1, s |-> s, b |-> Ramp(Structs[s + 1].size)] : s \in Of} ELSE {},
        IF 2 \in Kinds THEN UNION {{[k |-> 2, s |-> s, b |-> Image(Structs[s + 1].size, g, 0, 0), f |-> f - 1,
                     v |-> Image(Structs[s + 1].fields[f][3], 255 - g, p, v)] :
                    g \in Ground, v \in Probe, f \in 1..Len(Structs[s + 1].fields), p \in 0..8} : s \in Of} ELSE {},
        IF 3 \in Kinds THEN {[k |-> 3, s |-> 0, b |-> d] : d \in UNION {Data(n) : n \in 0..MaxLen}} ELSE {},
        IF 4 \in Kinds THEN {[k |-> 4, s |-> 0, n |-> n, lo |-> lo, hi |-> hi, b |-> d] :
                    n \in {0, 1, 2, 255, 256, 257, 65535, 65536, 65537, 70000, 131073}, lo \in {1, 128, 255}, hi \in {0, 127, 255},
                    d \in {<<>>, <<255>>, <<1, 2>>, <<1, 2, 3>>}} ELSE {},
        IF 5 \in Kinds THEN UNION {{[k |-> 5, s |-> 0, t |-> t, n |-> Table(t)[j][2]] : j \in 1..Len(Table(t))}
             \cup {[k |-> 5, s |-> 0, t |-> t, n |-> Runs(t)[j][1]] : j \in 1..Len(Runs(t))} : t \in Tables} ELSE {}
    }
Init == /\ op \in Ops
        /\ out = <<>>
Next == /\ out = <<>>
        /\ out' = Call(0, 0, op).obs
        /\ UNCHANGED op
        /\ PrintT("BEHAVIOUR " \o ToJson([in |-> [ops |-> <<op>>], out |-> <<out'>>]))

\* Fields follow each other without gaps, at multiples of their width.
Tiled == \A s \in Of :
    LET t == Structs[s + 1]
        n == Len(t.fields)
    IN /\ t.fields[1][2] = 0
       /\ \A k \in 1..n - 1 : t.fields[k][2] + t.fields[k][3] = t.fields[k + 1][2]
       /\ t.fields[n][2] + t.fields[n][3] = t.size
       /\ t.size % t.align = 0
       /\ \A k \in 1..n : t.fields[k][4] = "num" => t.fields[k][2] % t.fields[k][3] = 0
\* What is put is found, the rest stays, and values determine the image.
PutGet == out # <<>> /\ op.k = 2 =>
    LET t == Structs[op.s + 1]
        f == t.fields[op.f + 1]
    IN /\ Value(out, f) = op.v
       /\ \A k \in 1..Len(t.fields) : k # op.f + 1 => Value(out, t.fields[k]) = Value(op.b, t.fields[k])
       /\ Put(out, f, Value(op.b, f)) = op.b
\* Sums are additive over splits at even places, and padding is neutral.
Additive == out # <<>> /\ op.k = 3 =>
    /\ out[1] \in 0..65535
    /\ \A c \in 0..Len(op.b) : c % 2 = 0 =>
         out[1] = (Sum16(SubSeq(op.b, 1, c)) + Sum16(SubSeq(op.b, c + 1, Len(op.b)))) % 65536
    /\ Sum16(Append(op.b, 0)) = out[1]
Rep(n, lo, hi) == [k \in 1..2 * n |-> IF k % 2 = 1 THEN lo ELSE hi]
LongFits == out # <<>> /\ op.k = 4 /\ op.n <= 257 => out[1] = Sum16(Rep(op.n, op.lo, op.hi) \o op.b)
\* Constants of a group are distinct, and there is one of each name.
Distinct == \A t \in {ElfConst, PeConst, ErrConst} : \A i, j \in 1..Len(t) : i # j =>
    /\ t[i][2] # t[j][2]
    /\ t[i][1] # "" /\ t[i][1] = t[j][1] => t[i][3] # t[j][3]
ASSUME Distinct

\* The stub as it is known, and that the judgement of stubs bites.
Known == <<77, 90, 128, 0, 1, 0, 0, 0, 4, 0, 0, 0, 255, 255, 0, 0, 128, 0, 104, 167, 0, 0, 0, 0, 64, 0, 0, 0>>
         \o Zeros(32) \o <<128, 0, 0, 0>>
         \o <<14, 31, 186, 14, 0, 180, 9, 205, 33, 184, 1, 76, 205, 33>> \o StubText \o <<36>> \o Zeros(7)
ASSUME /\ ValidStub(Known)
       /\ \A k \in (1..28) \cup (61..122) : ~ValidStub([Known EXCEPT ![k] = (@ + 1) % 256])
       /\ \A k \in 65..121 : ~ValidStub([Known EXCEPT ![k] = (@ + 1) % 256, ![k + 2] = (@ + 255) % 256])
=============================================================================
