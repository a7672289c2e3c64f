-------------------------------- MODULE Num --------------------------------
(* Whole numbers of fixed width as bytes, most significant first, two's    *)
(* complement if signed.                                                   *)
EXTENDS Integers, Sequences

Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Zeros(n) == [k \in 1..n |-> 0]
IsZero(b) == \A k \in 1..Len(b) : b[k] = 0
Negative(b) == b[1] >= 128

\* Remainder r goes along from the left.
RECURSIVE Div10(_, _)
Div10(b, r) == IF b = <<>> THEN <<>>
               ELSE <<(r * 256 + b[1]) \div 10>> \o Div10(Tail(b), (r * 256 + b[1]) % 10)
RECURSIVE Mod10(_, _)
Mod10(b, r) == IF b = <<>> THEN r ELSE Mod10(Tail(b), (r * 256 + b[1]) % 10)
RECURSIVE Digits(_)
Digits(b) == IF IsZero(b) THEN <<>> ELSE Append(Digits(Div10(b, 0)), 48 + Mod10(b, 0))
Decimal(b) == IF IsZero(b) THEN <<48>> ELSE Digits(b)

\* Add one at the right end, dropping a final carry.
RECURSIVE Inc(_)
Inc(b) == IF b = <<>> THEN <<>>
          ELSE IF b[Len(b)] = 255 THEN Append(Inc(SubSeq(b, 1, Len(b) - 1)), 0)
          ELSE [b EXCEPT ![Len(b)] = @ + 1]
Negated(b) == Inc([k \in 1..Len(b) |-> 255 - b[k]])

RECURSIVE CmpU(_, _)
CmpU(a, b) == IF a = <<>> THEN 0 ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1
              ELSE CmpU(Tail(a), Tail(b))
Shifted(b) == [b EXCEPT ![1] = (@ + 128) % 256]
CmpN(a, b, signed) == IF signed THEN CmpU(Shifted(a), Shifted(b)) ELSE CmpU(a, b)

\* Text of a number: sign, digits, filled up to a width with blanks before
\* or zeros behind the sign.
Fill(c, n) == [k \in 1..(IF n > 0 THEN n ELSE 0) |-> c]
Text(b, signed, plus, zero, width) ==
    LET neg == signed /\ Negative(b)
        sign == IF neg THEN <<45>> ELSE IF plus = 1 THEN <<43>> ELSE <<>>
        dig == Decimal(IF neg THEN Negated(b) ELSE b)
        room == width - Len(sign) - Len(dig)
    IN IF zero = 1 THEN sign \o Fill(48, room) \o dig ELSE Fill(32, room) \o sign \o dig
=============================================================================
