-------------------------------- MODULE Str --------------------------------
(***************************************************************************)
(* String helpers (lib/osi/src/str.rs) and platform strings                *)
(* (lib/osi/src/compat.rs).  Texts are sequences of code points, platform  *)
(* strings sequences of bytes.                                             *)
(***************************************************************************)
EXTENDS Utf8, SequencesExt

(************************** natural order *********************************)
IsDigit(c) == c \in 48..57

\* Length of the run from position k on for which being a digit is d.
Run(s, k, d) == (CHOOSE j \in k..(Len(s) + 1) : (j > Len(s) \/ IsDigit(s[j]) # d) /\ \A i \in k..(j - 1) : IsDigit(s[i]) = d) - k

\* Pieces: alternately text and digits, beginning with text (maybe none).
RECURSIVE Pieces(_, _)
Pieces(s, d) == IF s = <<>> THEN <<>>
                ELSE LET n == Run(s, 1, d)
                     IN <<[digits |-> d, s |-> SubSeq(s, 1, n)]>> \o Pieces(SubSeq(s, n + 1, Len(s)), ~d)

\* Lexicographic: -1, 0, 1.
CmpSeq(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        \* The first index at which they are not the same.
        k == CHOOSE k \in 1..(n + 1) : (k > n \/ a[k] # b[k]) /\ \A j \in 1..(k - 1) : a[j] = b[j]
    IN CASE k > Len(a) /\ k > Len(b) -> 0
         [] k > Len(a) -> -1
         [] k > Len(b) -> 1
         [] OTHER -> IF a[k] < b[k] THEN -1 ELSE 1

\* Without leading zeros.
Trim(s) == LET k == CHOOSE k \in 1..(Len(s) + 1) : (k > Len(s) \/ s[k] # 48) /\ \A j \in 1..(k - 1) : s[j] = 48
           IN SubSeq(s, k, Len(s))
\* By value; the texts decide between equal values.
CmpDigits(a, b) == LET x == Trim(a)
                       y == Trim(b)
                       v == IF Len(x) # Len(y) THEN (IF Len(x) < Len(y) THEN -1 ELSE 1)
                            ELSE CmpSeq(x, y)
                   IN IF v # 0 THEN v ELSE CmpSeq(a, b)

RECURSIVE CmpPieces(_, _)
CmpPieces(a, b) ==
    CASE a = <<>> /\ b = <<>> -> 0
      [] a = <<>> -> -1
      [] b = <<>> -> 1
      [] OTHER -> LET v == IF a[1].digits THEN CmpDigits(a[1].s, b[1].s) ELSE CmpSeq(a[1].s, b[1].s)
                  IN IF v # 0 THEN v ELSE CmpPieces(Tail(a), Tail(b))
Natural(a, b) == CmpPieces(Pieces(a, FALSE), Pieces(b, FALSE))

(************************** identifiers ***********************************)
\* Classes of characters: 0 other, 1 alphabetic, 2 numeric.
Under == 95
Symbol(s, cls) ==
    (IF s = <<>> \/ cls[1] = 2 THEN <<Under>> ELSE <<>>)
    \o [k \in 1..Len(s) |-> IF cls[k] = 0 THEN Under ELSE s[k]]

(************************** calls *****************************************)
Sgn(v) == v
Some(s) == IF s = <<>> THEN <<0>> ELSE <<1>> \o s
Utf8Result(b) == IF IsUtf8(b) THEN <<1>> \o b ELSE <<0, ValidUpTo(b), ErrorLen(b)>>
\* A writer that takes cap bytes and then fails.
Written(have, b, cap) == LET all == have \o b IN IF Len(all) <= cap THEN all ELSE SubSeq(all, 1, cap)

\* State: content of the writer.
Call(in, w, op) ==
    CASE op.k = 0 -> [st |-> w, obs |-> <<Natural(op.a, op.b)>>]
      [] op.k = 1 -> [st |-> w, obs |-> Symbol(op.a, op.cls)]
      [] op.k = 2 -> [st |-> w, obs |-> Some(op.a)]
         \* bytes as platform string: validity, lossy text, bytes
      [] op.k = 3 -> [st |-> w, obs |-> Utf8Result(op.a)]
      [] op.k = 4 -> [st |-> w, obs |-> Utf8Result(op.a)]
      [] op.k = 5 -> [st |-> w, obs |-> Lossy(op.a)]
      [] op.k = 6 -> [st |-> w, obs |-> op.a]
      [] op.k = 7 -> [st |-> w, obs |-> <<CmpSeq(op.a, op.b)>>]
         \* text to a writer, plain or formatted
      [] op.k \in {8, 9} -> LET n == Written(w, op.a, in.cap)
                            IN [st |-> n, obs |-> <<IF Len(w) + Len(op.a) <= in.cap THEN 1 ELSE 0>> \o n]
=============================================================================
