----------------------------- MODULE JsonTokMC -----------------------------
(***************************************************************************)
(* Exploration of the tokenizer: every text that extends one of Openings   *)
(* by up to MaxLen characters of Alphabet, under each of FlagSets.         *)
(* Each finished text is printed with the outcomes demanded, for replay.   *)
(***************************************************************************)
EXTENDS JsonTok, TLC, Json, FiniteSets

CONSTANTS Openings,   \* texts that open each kind of token
          Alphabet, MaxLen, FlagSets,
          Mode        \* "text": replay as one call; "chars": one call per character;
                      \* "abort": one call for each report to abort at;
                      \* "quote": as "text", with a quote behind

VARIABLES f,      \* leniency switches
          text,   \* everything pushed
          more,   \* how many characters may still follow
          t,      \* tokenizer state
          rep,    \* reports made so far
          calls,  \* replay: calls and outcomes so far
          done
vars == <<f, text, more, t, rep, calls, done>>

Op(k, v) == [k |-> k, v |-> v, b |-> 0, m |-> 0]
NoCalls == [ops |-> <<>>, out |-> <<>>]

AddCall(cs, flags, t0, op) ==
    [ops |-> Append(cs.ops, op), out |-> Append(cs.out, Call(flags, t0, op).obs)]

Init == /\ f \in FlagSets
        /\ text \in Openings
        /\ more = MaxLen
        /\ LET r == Push(f, Idle, text, 0) IN t = r.t /\ rep = r.out
        /\ calls = IF Mode = "chars" THEN AddCall(NoCalls, f, Idle, Op(0, text)) ELSE NoCalls
        /\ done = FALSE

Append1(c) ==
    /\ ~done /\ more > 0
    /\ LET r == Feed(f, t, c) IN t' = r.t /\ rep' = rep \o r.out
    /\ text' = Append(text, c)
    /\ more' = more - 1
    /\ calls' = IF Mode = "chars" THEN AddCall(calls, f, t, Op(0, <<c>>)) ELSE calls
    /\ UNCHANGED <<f, done>>

Finish ==
    /\ ~done
    /\ text' = IF Mode = "quote" THEN Append(text, 34) ELSE text
    /\ LET r == Push(f, t, SubSeq(text', Len(text) + 1, Len(text')) \o <<EOI>>, 0) IN t' = r.t /\ rep' = rep \o r.out
    /\ calls' = CASE Mode = "chars" -> AddCall(calls, f, t, Op(3, <<>>))
                  [] Mode = "abort" -> LET one(cs, b) == AddCall(cs, f, Idle, [Op(1, text') EXCEPT !.b = b])
                                       IN FoldLeft(one, calls, [b \in 1..Len(rep') |-> b])
                  [] OTHER -> AddCall(calls, f, Idle, Op(1, text'))
    /\ done' = TRUE
    /\ PrintT("BEHAVIOUR " \o ToJson([in |-> [f |-> f, ops |-> calls'.ops], out |-> calls'.out]))
    /\ UNCHANGED <<f, more>>

Next == Finish \/ \E c \in Alphabet : Append1(c)

(************************** what is required ******************************)
Diagnosed == \E k \in 1..Len(rep) : IsError(rep[k])

\* Text a report covers.
Covers(r) == CASE r[1] = 1 -> <<58>>  [] r[1] = 2 -> <<44>>
               [] r[1] = 3 -> <<91>>  [] r[1] = 4 -> <<93>>
               [] r[1] = 5 -> <<123>> [] r[1] = 6 -> <<125>>
               [] r[1] = 7 -> KwNull  [] r[1] = 8 -> KwFalse [] r[1] = 9 -> KwTrue
               [] r[1] = 10 -> SubSeq(r, 3, 2 + r[2])
               [] r[1] = 11 -> SubSeq(r, 5, 4 + r[4])
               [] r[1] = 12 -> <<34>> \o SubSeq(r, 3, 2 + r[2]) \o <<34>>
Covered == FlattenSeq([k \in 1..Len(rep) |-> Covers(rep[k])])
OpenText == IF t.s \in StringStates THEN <<34>> \o t.raw ELSE t.raw

\* Without diagnostics, the tokens are the text, in order, nothing lost.
Lossless == (~Diagnosed /\ t.s # "comment") => Covered \o OpenText = text

\* Arrival: pushing the text in one piece gives the same.
SplitFree == LET r == Push(f, Idle, IF done THEN text \o <<EOI>> ELSE text, 0)
             IN r.t = t /\ r.out = rep

\* The end of the input closes everything.
EndsIdle == done => t = Idle

\* No token open: nothing remembered.
IdleClean == t.s = "none" => t = Idle

\* Leniency changes nothing for texts that are fine without it.
Lenient == (~Diagnosed /\ f = 0) =>
    \A g \in FlagSets : Push(g, Idle, IF done THEN text \o <<EOI>> ELSE text, 0).out = rep

(* Numbers, said once more as a grammar: [-] int [. digits] [e [+-] digits] *)
AllDigits(s) == s # <<>> /\ \A k \in 1..Len(s) : s[k] \in Digit
IsInt(s) == AllDigits(s) /\ (s[1] # 48 \/ Len(s) = 1)
IsExp(s) == AllDigits(s) \/ (s # <<>> /\ s[1] \in {43, 45} /\ AllDigits(Tail(s)))
\* First position of a character of set C in s, or 0.
First(s, C) == IF \E k \in 1..Len(s) : s[k] \in C
               THEN CHOOSE k \in 1..Len(s) : s[k] \in C /\ \A j \in 1..(k-1) : s[j] \notin C
               ELSE 0
NumberParts(s) ==
    LET e == First(s, {69, 101})
        m == IF e = 0 THEN s ELSE SubSeq(s, 1, e - 1)
        p == First(m, {46})
    IN [int |-> IF p = 0 THEN m ELSE SubSeq(m, 1, p - 1),
        frac |-> IF p = 0 THEN <<>> ELSE SubSeq(m, p + 1, Len(m)), dot |-> p # 0,
        exp |-> IF e = 0 THEN <<>> ELSE SubSeq(s, e + 1, Len(s)), hasexp |-> e # 0]
IsNumber(s) ==
    LET n == NumberParts(IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s)
    IN /\ IsInt(n.int)
       /\ n.dot => AllDigits(n.frac)
       /\ n.hasexp => IsExp(n.exp)
Digits(s) == [k \in 1..Len(s) |-> s[k] - 48]
NumberTokens ==
    (done /\ f = 0) =>
        /\ IsNumber(text) =>
               LET n == NumberParts(IF text[1] = 45 THEN Tail(text) ELSE text)
                   sg == n.exp # <<>> /\ n.exp[1] \in {43, 45}
               IN rep = <<TkNumber(IF text[1] = 45 THEN Minus ELSE Plus,
                                   IF n.exp # <<>> /\ n.exp[1] = 45 THEN Minus ELSE Plus, text,
                                   Digits(n.int), Digits(n.frac),
                                   Digits(IF sg THEN Tail(n.exp) ELSE n.exp))>>
        /\ ~Diagnosed => \A k \in 1..Len(rep) : rep[k][1] = 11 => IsNumber(Covers(rep[k]))

(* Strings, said once more as a decoding of the source text. *)
Hex4(s, k) == HexVal(s[k]) * 4096 + HexVal(s[k+1]) * 256 + HexVal(s[k+2]) * 16 + HexVal(s[k+3])
IsHex4(s, k) == k + 3 <= Len(s) /\ \A j \in k..(k+3) : HexVal(s[j]) # -1
RECURSIVE Decode(_, _)
\* Decoded characters from position k on; -1 in it if malformed.
Decode(s, k) ==
    CASE k > Len(s) -> <<>>
      [] s[k] = 34 \/ s[k] \in 0..31 -> <<-1>>
      [] s[k] # 92 -> <<s[k]>> \o Decode(s, k + 1)
      [] k = Len(s) -> <<-1>>
      [] s[k+1] # 117 -> <<Escaped(s[k+1])>> \o Decode(s, k + 2)
      [] ~IsHex4(s, k + 2) -> <<-1>>
      [] IsLead(Hex4(s, k + 2)) ->
            IF k + 7 <= Len(s) /\ s[k+6] = 92 /\ s[k+7] = 117 /\ IsHex4(s, k + 8)
               /\ IsTrail(Hex4(s, k + 8))
            THEN <<PairChar(Hex4(s, k + 2), Hex4(s, k + 8))>> \o Decode(s, k + 12)
            ELSE <<-1>>
      [] IsTrail(Hex4(s, k + 2)) -> <<-1>>
      [] OTHER -> <<Hex4(s, k + 2)>> \o Decode(s, k + 6)
StringTokens ==
    done =>
      /\ (Len(text) >= 2 /\ text[1] = 34 /\ text[Len(text)] = 34) =>
            LET raw == SubSeq(text, 2, Len(text) - 1)
                d == Decode(raw, 1)
            IN (\A k \in 1..Len(d) : d[k] # -1) => rep = <<TkString(raw, d)>>
      /\ ~Diagnosed => \A k \in 1..Len(rep) : rep[k][1] = 12 =>
            LET raw == SubSeq(rep[k], 3, 2 + rep[k][2])
            IN rep[k] = TkString(raw, Decode(raw, 1))

(************************** constants for the configurations **************)
S(a, b) == a \o b
Q == <<34>>
PrefixNone == {<<>>}
PrefixAll == {
    <<>>, <<45>>, <<48>>, <<49>>, <<49, 46>>, <<49, 46, 53>>, <<49, 101>>, <<49, 101, 43>>,
    <<49, 101, 53>>, <<110, 117, 108>>, <<110, 117, 108, 108>>, <<47>>, <<47, 47>>, <<35>>, <<32>>, <<160>>,
    Q, <<34, 92>>, <<34, 92, 117, 48>>, <<34, 92, 117, 48, 48, 52>>,
    <<34, 92, 117, 100, 56, 48, 48>>, <<34, 92, 117, 100, 56, 48, 48, 92>>,
    <<34, 92, 117, 100, 56, 48, 48, 92, 117>>,
    <<34, 92, 117, 100, 56, 48, 48, 92, 117, 100, 99, 48>>,
    <<34, 92, 117, 100, 56, 48, 48, 92, 117, 100, 56, 48>>,
    <<34, 92, 117, 100, 56, 48, 48, 92, 117, 48, 48, 52>>, <<34, 92, 117, 100, 99, 48>> }
PrefixStr == { Q, <<34, 92, 117, 100, 56, 48, 48>>, <<34, 92, 117, 100, 56>>,
               <<34, 92, 117, 100, 56, 48, 48, 92, 117, 100, 99, 48>> }
AlphaAll == { 58, 44, 91, 93, 123, 125, 32, 10, 9, 160, 110, 108, 97, 69, 117, 100, 45, 43, 46, 48, 49,
              34, 92, 47, 35, 61, 1, 31, 233, 127 }
AlphaEach == 0..127 \cup { 133, 159, 160, 233, 255, 8232, 65279, 65533, 128512 }
AlphaSmall == { 44, 93, 32, 10, 160, 108, 101, 117, 100, 45, 43, 46, 48, 49, 34, 92, 47, 35, 61, 31, 233 }
AlphaNum == { 45, 43, 46, 48, 49, 101, 69, 44 }
AlphaStr == { 92, 117, 100, 68, 56, 99, 48, 34, 110, 120 }
=============================================================================
