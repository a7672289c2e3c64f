-------------------------------- MODULE Tok --------------------------------
(***************************************************************************)
(* JSON from a stream (lib/tmp/src/fmt/json): the tokenizer (in.m = 0) and *)
(* the decoder of document structure on top of it (in.m = 1).              *)
(*                                                                         *)
(* What follows for the bytes at hand is a function of these bytes alone:  *)
(* Events(d, end) lists what the token at the start of d reports, as far   *)
(* as d decides it.  A call returns the first event not returned before.   *)
(***************************************************************************)
EXTENDS Utf8, SequencesExt

Sub(d, i, n) == SubSeq(d, i, i + n - 1)
Drop(d, n) == SubSeq(d, n + 1, Len(d))
\* The first index from i on that is not in S.
SpanTo(d, i, S) == CHOOSE j \in i..(IF i > Len(d) THEN i ELSE Len(d) + 1) :
                       (j > Len(d) \/ d[j] \notin S) /\ \A k \in i..(j - 1) : d[k] \in S
\* Number of bytes of the set S from i on.
Span(d, i, S) == SpanTo(d, i, S) - i

Blank == {9, 10, 13, 32}
Digit == 48..57
Alpha == (65..90) \union (97..122)
Signs == {43, 45}
HexDigit == Digit \union (65..70) \union (97..102)
Control == 0..31
HexVal(c) == CASE c \in Digit -> c - 48 [] c \in 65..70 -> c - 55 [] OTHER -> c - 87
Hex4(d, i) == HexVal(d[i]) * 4096 + HexVal(d[i + 1]) * 256 + HexVal(d[i + 2]) * 16 + HexVal(d[i + 3])

\* Tokens are tuples of integers; texts are preceded by their length.
Text(s) == <<Len(s)>> \o s
TWhite(s) == <<1>> \o s
TNumber(raw, sign, int, frac, exp) == <<11>> \o Text(raw) \o <<sign>> \o Text(int) \o frac \o exp
TString(raw, s) == <<12>> \o Text(raw) \o s
ERemaining == <<20>>
EItemNonUtf8(s) == <<22, ValidUpTo(s), ErrorLen(s)>> \o s
EItemUnknown(s) == <<23>> \o s
ELeadingPlus == <<25>>
EMultipleSigns == <<26>>
ERangeEmpty == <<27>>
EStringIncomplete == <<28>>
EStringNonUtf8(raw, s) == <<29, ValidUpTo(s), ErrorLen(s)>> \o Text(raw) \o s
EUnescaped(c) == <<30, c>>
EEscapeUnknown(c) == <<31, c>>
EEscapeInvalid == <<32>>
ELead(c) == <<33, c>>
ETrail(c) == <<34, c>>
IsError(e) == e[1] >= 20

\* Events so far, and the length of the token, or 0 if it goes on.
Open(ev) == [ev |-> ev, len |-> 0]
Closed(ev, n) == [ev |-> ev, len |-> n]
---------------------------------------------------------------------------
(* Runs: as long as possible, thus known when the next byte is there.      *)
Run(d, end, n, tok) == IF n = Len(d) /\ ~end THEN Open(<<>>) ELSE Closed(<<tok>>, n)
White(d, end) == LET n == Span(d, 1, Blank) IN Run(d, end, n, TWhite(Sub(d, 1, n)))
ItemChar == Signs \union {46} \union Digit \union Alpha
Item(d, end) ==
    LET n == 1 + Span(d, 2, ItemChar)
        s == Sub(d, 1, n)
    IN Run(d, end, n, CASE s = <<110, 117, 108, 108>> -> <<8>>
                        [] s = <<102, 97, 108, 115, 101>> -> <<9>>
                        [] s = <<116, 114, 117, 101>> -> <<10>>
                        [] IsUtf8(s) -> EItemUnknown(s)
                        [] OTHER -> EItemNonUtf8(s))
---------------------------------------------------------------------------
(* Numbers: signs, digits, optionally a dot and digits, optionally E with  *)
(* signs and digits.  The last of several signs counts.                    *)
Sign(d, i, n) == IF n > 0 /\ d[i + n - 1] = 45 THEN 1 ELSE 0
Number(d, end) ==
    LET signs == Span(d, 1, Signs)
        i0 == 1 + signs
        ints == Span(d, i0, Digit)
        f0 == i0 + ints
        frac == f0 <= Len(d) /\ d[f0] = 46
        fracs == IF frac THEN Span(d, f0 + 1, Digit) ELSE 0
        e0 == IF frac THEN f0 + 1 + fracs ELSE f0
        exp == e0 <= Len(d) /\ d[e0] \in {69, 101}
        esigns == IF exp THEN Span(d, e0 + 1, Signs) ELSE 0
        exps == IF exp THEN Span(d, e0 + 1 + esigns, Digit) ELSE 0
        n == IF exp THEN e0 + esigns + exps ELSE e0 - 1
        early == (IF d[1] = 43 THEN <<ELeadingPlus>> ELSE <<>>)
                 \o (IF signs > 1 THEN <<EMultipleSigns>> ELSE <<>>)
                 \o [k \in 1..(IF esigns > 1 THEN esigns - 1 ELSE 0) |-> EMultipleSigns]
        empty == ints = 0 \/ (frac /\ fracs = 0) \/ (exp /\ exps = 0)
        tok == TNumber(Sub(d, 1, n), Sign(d, 1, signs), Sub(d, i0, ints),
                       IF frac THEN Text(Sub(d, f0 + 1, fracs)) ELSE <<-1>>,
                       IF exp THEN <<Sign(d, e0 + 1, esigns)>> \o Text(Sub(d, e0 + 1 + esigns, exps)) ELSE <<-1>>)
    IN IF n = Len(d) /\ ~end THEN Open(early)
       ELSE Closed(early \o (IF empty THEN <<ERangeEmpty>> ELSE <<>>) \o <<tok>>, n)
---------------------------------------------------------------------------
(* Strings.  acc is the text decoded up to i.                              *)
Instead == <<239, 191, 189>>
Simple == {34, 92, 47, 98, 102, 110, 114, 116}
Meaning(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
\* How much of an escaped code unit there is at i.
RECURSIVE UnitFrom(_, _, _)
UnitFrom(d, i, n) ==
    IF n = 6 \/ i + n > Len(d) THEN n
    ELSE IF d[i + n] \in (CASE n = 0 -> {92} [] n = 1 -> {117} [] OTHER -> HexDigit) THEN UnitFrom(d, i, n + 1) ELSE n
Unit(d, i) == UnitFrom(d, i, 0)
Plain == (32..255) \ {34, 92}
RECURSIVE Chars(_, _, _, _)
Chars(d, i, acc, ev) ==
    IF i > Len(d) THEN Open(ev)
    ELSE CASE d[i] = 34 ->
                LET raw == Sub(d, 1, i)
                IN Closed(Append(ev, IF IsUtf8(acc) THEN TString(raw, acc) ELSE EStringNonUtf8(raw, acc)), i)
           [] d[i] \in Control -> Chars(d, i + 1, Append(acc, d[i]), Append(ev, EUnescaped(d[i])))
           [] d[i] # 92 -> LET j == SpanTo(d, i, Plain) IN Chars(d, j, acc \o Sub(d, i, j - i), ev)
           [] i = Len(d) -> Open(ev)
           [] d[i + 1] \in Simple -> Chars(d, i + 2, Append(acc, Meaning(d[i + 1])), ev)
           [] d[i + 1] # 117 -> Chars(d, i + 2, Append(acc, d[i + 1]), Append(ev, EEscapeUnknown(d[i + 1])))
           [] OTHER ->
                LET n == Unit(d, i)
                    next == i + n
                    c == Hex4(d, i + 2)
                    m == Unit(d, next)
                    c2 == Hex4(d, next + 2)
                IN IF n < 6 THEN IF next > Len(d) THEN Open(ev)
                                 ELSE Chars(d, next, acc \o Instead, Append(ev, EEscapeInvalid))
                   ELSE IF c \in 55296..56319
                   THEN \* Half of a pair, if the other one follows.
                        IF m < 6 /\ next + m > Len(d) THEN Open(ev)
                        ELSE IF m = 6 /\ c2 \in 56320..57343
                        THEN Chars(d, next + 6, acc \o Encode(65536 + (c - 55296) * 1024 + (c2 - 56320)), ev)
                        ELSE Chars(d, next, acc \o Instead, Append(ev, ELead(c)))
                   ELSE IF c \in 56320..57343 THEN Chars(d, next, acc \o Instead, Append(ev, ETrail(c)))
                   ELSE Chars(d, next, acc \o Encode(c), ev)
String(d, end) == LET r == Chars(d, 2, <<>>, <<>>)
                  IN IF r.len = 0 /\ end THEN Closed(Append(r.ev, EStringIncomplete), Len(d)) ELSE r
---------------------------------------------------------------------------
Events(d, end) ==
    IF d = <<>> THEN Open(<<>>)
    ELSE CASE d[1] \in Blank -> White(d, end)
           [] d[1] = 58 -> Closed(<<<<2>>>>, 1)
           [] d[1] = 44 -> Closed(<<<<3>>>>, 1)
           [] d[1] = 91 -> Closed(<<<<4>>>>, 1)
           [] d[1] = 93 -> Closed(<<<<5>>>>, 1)
           [] d[1] = 123 -> Closed(<<<<6>>>>, 1)
           [] d[1] = 125 -> Closed(<<<<7>>>>, 1)
           [] d[1] = 34 -> String(d, end)
           [] d[1] \in Signs \union Digit -> Number(d, end)
           [] OTHER -> Item(d, end)
---------------------------------------------------------------------------
(* The tokenizer: pos bytes consumed, avail bytes arrived, k events of the *)
(* token returned; asked: the last call asked for more; open: within the   *)
(* token when it did; end: completing.                                     *)
(* place and up: where the document is, and the containers around it.      *)
Start(in) == [pos |-> 0, avail |-> IF in.kind = 0 THEN Len(in.data) ELSE 0, k |-> 0, asked |-> FALSE, open |-> FALSE, end |-> FALSE,
              place |-> "root", up |-> <<>>]
Lower(a, b) == IF a <= b THEN a ELSE b
\* The next event, <<>> if none is known.
Next1(in, s, end) ==
    LET e == Events(SubSeq(in.data, s.pos + 1, s.avail), end)
    IN IF s.k = Len(e.ev) THEN [st |-> s, ev |-> <<>>]
       ELSE [st |-> IF e.len > 0 /\ s.k + 1 = Len(e.ev) THEN [s EXCEPT !.pos = @ + e.len, !.k = 0, !.open = FALSE] ELSE [s EXCEPT !.k = @ + 1],
             ev |-> e.ev[s.k + 1]]
---------------------------------------------------------------------------
(* Document structure.  Results: 1 error, 2 value, 3 key, 4 to 7 opened    *)
(* and closed containers; <<>> if the token is not reported.               *)
After(up) == IF up = <<>> THEN "done" ELSE IF Last(up) = "array" THEN "value" ELSE "entry"
\* The container a value at this place would be in.
Around(s) == CASE s.place = "root" -> s.up
               [] s.place \in {"array", "comma"} -> Append(s.up, "array")
               [] OTHER -> Append(s.up, "object")
Fitting(s, e) ==
    LET t == e[1]
        valued == s.place \in {"root", "array", "comma", "colon"}
        leave(r) == [st |-> [s EXCEPT !.place = After(s.up), !.up = IF @ = <<>> THEN @ ELSE Front(@)], item |-> r]
        go(p, r) == [st |-> [s EXCEPT !.place = p], item |-> r]
        wrong == [st |-> s, item |-> <<1>>]
    IN CASE t = 1 -> [st |-> s, item |-> <<>>]
         [] t \in {8, 9, 10, 11} \/ (t = 12 /\ valued) ->
                IF valued THEN go(After(Around(s)), <<2>>) ELSE wrong
         [] t = 12 -> IF s.place \in {"object", "more"} THEN go("key", <<3>>) ELSE wrong
         [] t = 4 -> IF valued THEN [st |-> [s EXCEPT !.place = "array", !.up = Around(s)], item |-> <<4>>] ELSE wrong
         [] t = 6 -> IF valued THEN [st |-> [s EXCEPT !.place = "object", !.up = Around(s)], item |-> <<6>>] ELSE wrong
         [] t = 5 -> IF s.place \in {"array", "value"} THEN leave(<<5>>) ELSE wrong
         [] t = 7 -> IF s.place \in {"object", "entry"} THEN leave(<<7>>) ELSE wrong
         [] t = 2 -> IF s.place = "key" THEN go("colon", <<>>) ELSE wrong
         [] t = 3 -> CASE s.place = "value" -> go("comma", <<>>)
                       [] s.place = "entry" -> go("more", <<>>)
                       [] OTHER -> wrong
         [] OTHER -> wrong
RECURSIVE NextItem(_, _)
NextItem(in, s) ==
    LET r == Next1(in, s, FALSE)
        f == Fitting(r.st, r.ev)
    IN IF r.ev = <<>> THEN [st |-> r.st, ev |-> <<>>]
       ELSE IF f.item = <<>> THEN NextItem(in, f.st) ELSE [st |-> f.st, ev |-> f.item]
---------------------------------------------------------------------------
(* CallTail: 0 n bytes arrive; 1 pop; 2 complete; 3 pop until more is asked   *)
(* for; 4 complete until the end.                                          *)
Pop1(in, s) ==
    LET r == IF in.m = 0 THEN Next1(in, s, FALSE) ELSE NextItem(in, s)
    IN IF r.ev = <<>> THEN [st |-> [r.st EXCEPT !.asked = TRUE, !.open = r.st.pos < r.st.avail], obs |-> <<0>>]
       ELSE [st |-> [r.st EXCEPT !.asked = FALSE], obs |-> r.ev]
Complete1(in, s) ==
    IF s.pos = s.avail THEN [st |-> [s EXCEPT !.end = TRUE], obs |-> <<-1, s.pos>>]
    ELSE IF ~s.asked THEN [st |-> s, obs |-> ERemaining]
    ELSE LET r == Next1(in, s, TRUE) IN [st |-> [r.st EXCEPT !.end = TRUE], obs |-> r.ev]
\* Results with a mark between them.
Joined(obs) == FoldLeft(LAMBDA a, o : IF a = <<>> THEN o ELSE a \o <<-9>> \o o, <<>>, obs)
\* No byte accounts for more than three events.
CallTail(s) == [i \in 1..(3 * (s.avail - s.pos) + 1) |-> i]
PopAll(in, s) ==
    LET one(a, i) == IF a.done THEN a
                     ELSE LET r == Pop1(in, a.st) IN [st |-> r.st, obs |-> Append(a.obs, r.obs), done |-> r.obs = <<0>>]
        all == FoldLeft(one, [st |-> s, obs |-> <<>>, done |-> FALSE], CallTail(s))
    IN [st |-> all.st, obs |-> Joined(all.obs)]
CompleteAll(in, s) ==
    LET one(a, i) == IF a.done THEN a
                     ELSE LET r == Complete1(in, a.st) IN [st |-> r.st, obs |-> Append(a.obs, r.obs), done |-> r.obs[1] = -1]
        all == FoldLeft(one, [st |-> s, obs |-> <<>>, done |-> FALSE], CallTail(s))
    IN [st |-> all.st, obs |-> Joined(all.obs)]
Call(in, s, op) ==
    CASE op.k = 0 -> [st |-> [s EXCEPT !.avail = Lower(@ + op.n, Len(in.data)), !.asked = @ /\ op.n = 0], obs |-> <<1>>]
      [] op.k = 1 -> Pop1(in, s)
      [] op.k = 2 -> Complete1(in, s)
      [] op.k = 3 -> PopAll(in, s)
      [] op.k = 4 -> CompleteAll(in, s)
\* The end is told when more was asked for, or between tokens; nothing but
\* further ends follows.
Can(in, s, op) ==
    CASE op.k \in {0, 1, 3} -> ~s.end
      [] op.k = 2 -> in.m = 0 /\ (s.asked \/ (s.k = 0 /\ ~s.open))
      [] op.k = 4 -> in.m = 0 /\ (s.asked \/ s.pos = s.avail)
=============================================================================
