------------------------------- MODULE StrMC -------------------------------
(***************************************************************************)
(* Natural order on all strings over an alphabet up to some length: a      *)
(* total order, digit runs by value.  Each string is compared with all.    *)
(***************************************************************************)
EXTENDS Str, TLC, Json, FiniteSets, FiniteSetsExt
CONSTANTS Alphabet, MaxLen, Long
VARIABLE a
Strings == UNION {[1..n -> Alphabet] : n \in 0..MaxLen} \cup Long
AsSeq == SetToSeq(Strings)
Init == a \in Strings
Next == FALSE /\ a' = a
Report == PrintT("BEHAVIOUR " \o ToJson(
    [in |-> [cap |-> 0, piece |-> 0, ops |-> [i \in 1..Len(AsSeq) |-> [k |-> 0, a |-> a, b |-> AsSeq[i]]]],
     out |-> [i \in 1..Len(AsSeq) |-> <<Natural(a, AsSeq[i])>>]]))

Below == {x \in Strings : Natural(x, a) < 0}
Above == {x \in Strings : Natural(a, x) < 0}
\* Equal only to itself, and never both before and behind another.
Antisymmetric == /\ \A x \in Strings : Natural(a, x) = 0 <=> x = a
                 /\ \A x \in Strings : Natural(a, x) = -Natural(x, a)
Transitive == \A x \in Below, y \in Above : Natural(x, y) < 0
\* Nothing but digits: the value decides.
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE Value(Front(s)) * 10 + Last(s) - 48
AllDigits(s) == s # <<>> /\ Len(s) <= 8 /\ \A k \in 1..Len(s) : IsDigit(s[k])
ByValue == \A x \in Strings : (AllDigits(a) /\ AllDigits(x) /\ Value(a) < Value(x)) => Natural(a, x) = -1

LongNone == {}
D(n, d) == [k \in 1..n |-> d]
LongSome == {D(19, 57), D(20, 57), <<49>> \o D(20, 48), D(25, 48) \o <<49>>, D(21, 49) \o <<97>>,
             <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>,
             <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>>}
=============================================================================
