------------------------------ MODULE JsonTok ------------------------------
(***************************************************************************)
(* The push-based JSON tokenizer (lib/osi/src/json/token.rs).              *)
(*                                                                         *)
(* A tokenizer state is a record; Feed(flags, t, c) is the transition for  *)
(* one character c (a code point, or EOI for the end of the input).  It    *)
(* yields the next state and the sequence of reports made, in order.       *)
(* Reports are flat sequences of integers: a kind followed by its payload  *)
(* (texts are length-prefixed), so that they can be compared with what an  *)
(* implementation reported.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

EOI == -1

\* Leniency switches: a bit set 0..3.
AllowLeadingZero(f) == f \in {1, 3}
AllowPlusSign(f)    == f \in {2, 3}

(************************** reports ***************************************)
Text(s) == <<Len(s)>> \o s

TkColon == <<1>>      TkComma == <<2>>
TkArrOpen == <<3>>    TkArrClose == <<4>>
TkObjOpen == <<5>>    TkObjClose == <<6>>
TkNull == <<7>>       TkFalse == <<8>>      TkTrue == <<9>>
TkSpace(raw) == <<10>> \o Text(raw)
TkNumber(isg, esg, raw, int, frac, exp) ==
    <<11, isg, esg>> \o Text(raw) \o Text(int) \o Text(frac) \o Text(exp)
TkString(raw, chars) == <<12>> \o Text(raw) \o Text(chars)

ErStray(c)      == <<21, c>>
ErKeyword(s)    == <<22>> \o Text(s)
ErNumber        == <<23>>
ErString        == <<24>>
ErStrChar(c)    == <<25, c>>
ErEscInvalid(c) == <<26, c>>
ErEscIncomplete == <<27>>
ErSurrogate     == <<28>>
ErComment(s)    == <<29>> \o Text(s)

IsError(r) == r[1] > 20

Plus == 0
Minus == 1

(************************** character classes *****************************)
JsonSpace == {32, 10, 13, 9}
\* Unicode White_Space.
Space == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202)
         \cup {8232, 8233, 8239, 8287, 12288}
Digit == 48..57
HexVal(c) == CASE c \in 48..57  -> c - 48
               [] c \in 97..102 -> c - 87
               [] c \in 65..70  -> c - 55
               [] OTHER         -> -1
Punct == {58, 44, 91, 93, 123, 125}               \* : , [ ] { }
\* What ends a keyword:  punctuation, white-space, - " # / + =
KeywordEnd == Punct \cup Space \cup {45, 34, 35, 47, 43, 61}

KwNull == <<110, 117, 108, 108>>
KwFalse == <<102, 97, 108, 115, 101>>
KwTrue == <<116, 114, 117, 101>>

(************************** states ****************************************)
\* s    which token, and which part of it, is open
\* raw  source text of the open token
\* str  decoded characters of the open string
\* int, frac, exp  digits, isg, esg  signs of the open number
\* n, v  digits seen and value of the open \u escape;  lead  pending surrogate
Idle == [s |-> "none", raw |-> <<>>, str |-> <<>>, int |-> <<>>, frac |-> <<>>,
         exp |-> <<>>, isg |-> Plus, esg |-> Plus, n |-> 0, v |-> 0, lead |-> 0]

StringStates == {"str", "esc", "uni", "sur", "suresc", "suruni"}
NumberStates == {"int-", "int0", "int", "frac-", "frac", "exp-", "exp+", "exp"}

R(t, reports) == [t |-> t, out |-> reports]

(************************** no token open *********************************)
Start(f, c) ==
    LET open(s) == [Idle EXCEPT !.s = s, !.raw = <<c>>] IN
    CASE c = EOI -> R(Idle, <<>>)
      [] c = 58  -> R(Idle, <<TkColon>>)
      [] c = 44  -> R(Idle, <<TkComma>>)
      [] c = 91  -> R(Idle, <<TkArrOpen>>)
      [] c = 93  -> R(Idle, <<TkArrClose>>)
      [] c = 123 -> R(Idle, <<TkObjOpen>>)
      [] c = 125 -> R(Idle, <<TkObjClose>>)
      [] c = 34  -> R([Idle EXCEPT !.s = "str"], <<>>)
      [] c = 35  -> R([Idle EXCEPT !.s = "comment"], <<>>)
      [] c = 47  -> R(open("slash"), <<>>)
      [] c = 61  -> R(Idle, <<ErStray(c), TkColon>>)
      [] c = 45  -> R([open("int-") EXCEPT !.isg = Minus], <<>>)
      [] c = 43  -> IF AllowPlusSign(f) THEN R(open("int-"), <<>>)
                                        ELSE R(Idle, <<ErStray(c)>>)
      [] c = 48  -> R([open("int0") EXCEPT !.int = <<0>>], <<>>)
      [] c \in 49..57 -> R([open("int") EXCEPT !.int = <<c - 48>>], <<>>)
      [] c \in JsonSpace -> R(open("space"), <<>>)
      [] c \in Space \ JsonSpace -> R([Idle EXCEPT !.s = "space"], <<ErStray(c)>>)
      [] OTHER -> R(open("word"), <<>>)

\* The open token ends before c, reporting `reports`; c then starts a new one.
Ends(f, c, reports) ==
    LET r == Start(f, c) IN R(r.t, reports \o r.out)

Takes(t, c) == [t EXCEPT !.raw = Append(@, c)]

(************************** words, space, comments ************************)
WordReport(raw) == CASE raw = KwNull  -> TkNull
                     [] raw = KwFalse -> TkFalse
                     [] raw = KwTrue  -> TkTrue
                     [] OTHER         -> ErKeyword(raw)

Word(f, t, c) ==
    IF c = EOI \/ c \in KeywordEnd
    THEN Ends(f, c, <<WordReport(t.raw)>>)
    ELSE R([Takes(t, c) EXCEPT !.s = "word"], <<>>)

Slash(f, t, c) ==
    IF c = 47 THEN R([Takes(t, c) EXCEPT !.s = "comment"], <<>>)
              ELSE Word(f, t, c)

SpaceRun(f, t, c) ==
    CASE c \in JsonSpace         -> R(Takes(t, c), <<>>)
      [] c \in Space \ JsonSpace -> R(t, <<ErStray(c)>>)
      [] OTHER                   -> Ends(f, c, <<TkSpace(t.raw)>>)

Comment(f, t, c) ==
    IF c = EOI \/ c = 10 THEN Ends(f, c, <<ErComment(t.raw)>>)
                         ELSE R(Takes(t, c), <<>>)

(************************** numbers ***************************************)
NumberReport(t) == TkNumber(t.isg, t.esg, t.raw, t.int, t.frac, t.exp)

Number(f, t, c) ==
    LET to(s)  == [Takes(t, c) EXCEPT !.s = s]
        d      == c - 48
        done   == Ends(f, c, <<NumberReport(t)>>)
        broken == Ends(f, c, <<ErNumber, NumberReport(t)>>)
    IN
    CASE t.s = "int-" ->
            (CASE c = 48       -> R([to("int0") EXCEPT !.int = <<d>>], <<>>)
               [] c \in 49..57 -> R([to("int") EXCEPT !.int = <<d>>], <<>>)
               [] OTHER        -> broken)
      [] t.s = "int0" ->
            (CASE c \in Digit  -> R([to("int") EXCEPT !.int = Append(@, d)],
                                    IF AllowLeadingZero(f) THEN <<>> ELSE <<ErStray(c)>>)
               [] c = 46       -> R(to("frac-"), <<>>)
               [] c \in {69, 101} -> R(to("exp-"), <<>>)
               [] OTHER        -> done)
      [] t.s = "int" ->
            (CASE c \in Digit  -> R([to("int") EXCEPT !.int = Append(@, d)], <<>>)
               [] c = 46       -> R(to("frac-"), <<>>)
               [] c \in {69, 101} -> R(to("exp-"), <<>>)
               [] OTHER        -> done)
      [] t.s = "frac-" ->
            (IF c \in Digit THEN R([to("frac") EXCEPT !.frac = <<d>>], <<>>) ELSE broken)
      [] t.s = "frac" ->
            (CASE c \in Digit  -> R([to("frac") EXCEPT !.frac = Append(@, d)], <<>>)
               [] c \in {69, 101} -> R(to("exp-"), <<>>)
               [] OTHER        -> done)
      [] t.s = "exp-" ->
            (CASE c \in Digit  -> R([to("exp") EXCEPT !.exp = <<d>>], <<>>)
               [] c = 43       -> R(to("exp+"), <<>>)
               [] c = 45       -> R([to("exp+") EXCEPT !.esg = Minus], <<>>)
               [] OTHER        -> broken)
      [] t.s = "exp+" ->
            (IF c \in Digit THEN R([to("exp") EXCEPT !.exp = <<d>>], <<>>) ELSE broken)
      [] t.s = "exp" ->
            (IF c \in Digit THEN R([to("exp") EXCEPT !.exp = Append(@, d)], <<>>) ELSE done)

(************************** strings ***************************************)
\* The character of a one-letter escape, or -1.
Escaped(c) == CASE c \in {34, 92, 47} -> c
                [] c = 98  -> 8
                [] c = 102 -> 12
                [] c = 110 -> 10
                [] c = 114 -> 13
                [] c = 116 -> 9
                [] OTHER   -> -1

IsLead(v)  == v \in 55296..56319      \* d800..dbff
IsTrail(v) == v \in 56320..57343      \* dc00..dfff
PairChar(lead, trail) == 65536 + (lead - 55296) * 1024 + (trail - 56320)

\* Back to plain string contents.
Plain(t) == [t EXCEPT !.s = "str", !.n = 0, !.v = 0, !.lead = 0]
Adds(t, ch) == [t EXCEPT !.str = Append(@, ch)]

\* c as ordinary string contents, after the reports `reports`.
Body(t, c, reports) ==
    CASE c = 34 -> R(Idle, reports \o <<TkString(t.raw, t.str)>>)
      [] c = 92 -> R([Takes(t, c) EXCEPT !.s = "esc"], reports)
      [] c \in 0..31 -> R(Adds(Takes(t, c), c), reports \o <<ErStrChar(c)>>)
      [] OTHER -> R(Adds(Takes(t, c), c), reports)

String(t, c) ==
    CASE c = EOI -> R(Idle, <<ErString>>)
      [] t.s = "str" -> Body(t, c, <<>>)
      [] t.s = "esc" ->
            (CASE Escaped(c) # -1 -> R(Adds(Plain(Takes(t, c)), Escaped(c)), <<>>)
               [] c = 117 -> R([Takes(t, c) EXCEPT !.s = "uni", !.n = 0, !.v = 0], <<>>)
               [] OTHER   -> R(Adds(Plain(Takes(t, c)), c), <<ErEscInvalid(c)>>))
      [] t.s = "uni" ->
            (IF HexVal(c) = -1 THEN Body(Plain(t), c, <<ErEscIncomplete>>)
             ELSE LET v == t.v * 16 + HexVal(c)
                      u == Takes(t, c)
                  IN CASE t.n < 3    -> R([u EXCEPT !.n = @ + 1, !.v = v], <<>>)
                       [] IsLead(v)  -> R([Plain(u) EXCEPT !.s = "sur", !.lead = v], <<>>)
                       [] IsTrail(v) -> R(Plain(u), <<ErSurrogate>>)
                       [] OTHER      -> R(Adds(Plain(u), v), <<>>))
      [] t.s = "sur" ->
            (IF c = 92 THEN R([Takes(t, c) EXCEPT !.s = "suresc"], <<>>)
                       ELSE Body(Plain(t), c, <<ErSurrogate>>))
      [] t.s = "suresc" ->
            (CASE c = 117 -> R([Takes(t, c) EXCEPT !.s = "suruni", !.n = 0, !.v = 0], <<>>)
               [] Escaped(c) # -1 -> R(Adds(Plain(Takes(t, c)), Escaped(c)), <<ErSurrogate>>)
               [] OTHER -> R(Adds(Plain(Takes(t, c)), c), <<ErSurrogate, ErEscInvalid(c)>>))
      [] t.s = "suruni" ->
            (IF HexVal(c) = -1 THEN Body(Plain(t), c, <<ErEscIncomplete>>)
             ELSE LET v == t.v * 16 + HexVal(c)
                      u == Takes(t, c)
                  IN CASE t.n < 3    -> R([u EXCEPT !.n = @ + 1, !.v = v], <<>>)
                       [] IsTrail(v) -> R(Adds(Plain(u), PairChar(t.lead, v)), <<>>)
                       [] OTHER      -> R(Plain(u), <<ErSurrogate>>))

(************************** one character *********************************)
Feed(f, t, c) ==
    CASE t.s = "none"    -> Start(f, c)
      [] t.s = "word"    -> Word(f, t, c)
      [] t.s = "slash"   -> Slash(f, t, c)
      [] t.s = "space"   -> SpaceRun(f, t, c)
      [] t.s = "comment" -> Comment(f, t, c)
      [] t.s \in NumberStates -> Number(f, t, c)
      [] t.s \in StringStates -> String(t, c)

Busy(t) == IF t.s = "none" THEN 0 ELSE 1

(************************** calls *****************************************)
\* A call pushes a sequence of characters.  brk is the number of the report
\* at which the receiver aborts (0: never).  The call's outcome is the reports
\* delivered, and 0/1 for done/busy or 2 for aborted.
Push(f, t, cs, brk) ==
    LET one(a, c) ==
            IF a.ret = 2 THEN a
            ELSE LET r == Feed(f, a.t, c)
                     all == a.out \o r.out
                 IN IF brk # 0 /\ Len(all) >= brk
                    THEN [t |-> Idle, out |-> SubSeq(all, 1, brk), ret |-> 2]
                    ELSE [t |-> r.t, out |-> all, ret |-> Busy(r.t)]
    IN FoldLeft(one, [t |-> t, out |-> <<>>, ret |-> Busy(t)], cs)

Flat(rs) == FlattenSeq(rs)

\* Calls: 0 push text, 1 text and end of input, 2 reset, 3 end of input,
\* 4 continue with a copy of the tokenizer.
\* Observation of a call: outcome, status afterwards, number of reports, reports.
Call(f, t, op) ==
    LET r == CASE op.k = 0 -> Push(f, t, op.v, op.b)
               [] op.k = 1 -> Push(f, t, op.v \o <<EOI>>, op.b)
               [] op.k = 2 -> [t |-> Idle, out |-> <<>>, ret |-> 0]
               [] op.k = 4 -> [t |-> t, out |-> <<>>, ret |-> Busy(t)]
               [] op.k = 3 -> Push(f, t, <<EOI>>, op.b)
    IN [t |-> r.t,
        obs |-> <<r.ret, Busy(r.t), Len(r.out)>> \o Flat(r.out)]
=============================================================================
