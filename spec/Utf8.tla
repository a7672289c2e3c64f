-------------------------------- MODULE Utf8 --------------------------------
(* UTF-8 well-formedness and decoding on sequences of bytes (Unicode 3.9,  *)
(* table 3-7).                                                             *)
EXTENDS Integers, Sequences

Cont == 128..191
\* Admissible second bytes behind a lead byte.
Second(b) == CASE b \in 194..223 -> Cont
               [] b = 224        -> 160..191
               [] b = 237        -> 128..159
               [] b \in 225..239 -> Cont
               [] b = 240        -> 144..191
               [] b \in 241..243 -> Cont
               [] b = 244        -> 128..143
               [] OTHER          -> {}
\* Length announced by a lead byte; 0 if it cannot lead.
Width(b) == CASE b \in 0..127   -> 1
              [] b \in 194..223 -> 2
              [] b \in 224..239 -> 3
              [] b \in 240..244 -> 4
              [] OTHER          -> 0

\* How many bytes from position k on agree with a well-formed character.
Agree(s, k) ==
    LET w == Width(s[k])
        has(j) == k + j <= Len(s)
    IN CASE w \in {0, 1} -> w
         [] ~(has(1) /\ s[k+1] \in Second(s[k])) -> 1
         [] w = 2 -> 2
         [] ~(has(2) /\ s[k+2] \in Cont) -> 2
         [] w = 3 -> 3
         [] ~(has(3) /\ s[k+3] \in Cont) -> 3
         [] OTHER -> 4
WellFormedAt(s, k) == Width(s[k]) # 0 /\ Agree(s, k) = Width(s[k])

\* The first index from k on that is not of ASCII.
AsciiEnd(s, k) == CHOOSE j \in k..(Len(s) + 1) : (j > Len(s) \/ s[j] >= 128) /\ \A i \in k..(j - 1) : s[i] < 128
RECURSIVE ValidFrom(_, _)
\* Length of the longest well-formed prefix, given that it reaches k - 1.
ValidFrom(s, k) == IF k > Len(s) \/ ~WellFormedAt(s, k) THEN k - 1
                   ELSE IF s[k] >= 128 THEN ValidFrom(s, k + Width(s[k]))
                   ELSE ValidFrom(s, AsciiEnd(s, k))
ValidUpTo(s) == ValidFrom(s, 1)
IsUtf8(s) == ValidUpTo(s) = Len(s)

\* Length of the ill-formed part at the end of the valid one; 0 if the input
\* ends within a character.
ErrorLen(b) == LET k == ValidUpTo(b) + 1
                   n == IF Agree(b, k) = 0 THEN 1 ELSE Agree(b, k)
               IN IF Width(b[k]) > Agree(b, k) /\ k + Agree(b, k) > Len(b) THEN 0 ELSE n

CharAt(s, k) == CASE Width(s[k]) = 1 -> s[k]
                  [] Width(s[k]) = 2 -> (s[k] - 192) * 64 + (s[k+1] - 128)
                  [] Width(s[k]) = 3 -> (s[k] - 224) * 4096 + (s[k+1] - 128) * 64 + (s[k+2] - 128)
                  [] OTHER -> (s[k] - 240) * 262144 + (s[k+1] - 128) * 4096
                              + (s[k+2] - 128) * 64 + (s[k+3] - 128)

RECURSIVE LossyFrom(_, _)
\* Code points; each maximal ill-formed part becomes one U+FFFD.
LossyFrom(s, k) ==
    CASE k > Len(s) -> <<>>
      [] s[k] < 128 -> LET j == AsciiEnd(s, k) IN SubSeq(s, k, j - 1) \o LossyFrom(s, j)
      [] WellFormedAt(s, k) -> <<CharAt(s, k)>> \o LossyFrom(s, k + Width(s[k]))
      [] OTHER -> <<65533>> \o LossyFrom(s, k + (IF Agree(s, k) = 0 THEN 1 ELSE Agree(s, k)))
Lossy(s) == LossyFrom(s, 1)

\* Bytes of a code point.
Encode(c) ==
    LET low(n) == 128 + ((c \div n) % 64)
    IN CASE c < 128   -> <<c>>
         [] c < 2048  -> <<192 + (c \div 64), low(1)>>
         [] c < 65536 -> <<224 + (c \div 4096), low(64), low(1)>>
         [] OTHER     -> <<240 + (c \div 262144), low(4096), low(64), low(1)>>
=============================================================================
