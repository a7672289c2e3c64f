-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* Program arguments (lib/osi/src/args): commands, flags, parameters,     *)
(* receivers and help.                                                     *)
(*                                                                         *)
(* A schema is a sequence of commands [path, flags], in any order; a path  *)
(* is a sequence of names, a flag is [n |-> name, m |-> mode].  Names and  *)
(* arguments are sequences of bytes.  Modes: 0 set, 1 toggle, 2 parse.     *)
(* Paths are distinct, and so are the flags of one command.                *)
(***************************************************************************)
EXTENDS Utf8, SequencesExt, FiniteSets, TLC

Set == 0   Toggle == 1   Parse == 2

(************************** order *****************************************)
\* The first index at which a and b are not the same.
Differ(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
    IN CHOOSE k \in 1..(n + 1) : (k > n \/ a[k] # b[k]) /\ \A j \in 1..(k - 1) : a[j] = b[j]
NameLess(a, b) == LET k == Differ(a, b) IN CASE k > Len(b) -> FALSE [] k > Len(a) -> TRUE [] OTHER -> a[k] < b[k]
RECURSIVE PathLessAt(_, _, _)
PathLessAt(a, b, k) == CASE k > Len(b) -> FALSE
                         [] k > Len(a) -> TRUE
                         [] a[k] # b[k] -> NameLess(a[k], b[k])
                         [] OTHER -> PathLessAt(a, b, k + 1)
PathLess(a, b) == PathLessAt(a, b, 1)

\* Position of command c (index in the declaration) in the sorted schema.
Rank(sch, c) == Cardinality({d \in 1..Len(sch) : PathLess(sch[d].path, sch[c].path)})
\* Command, by declaration, of a position.
AtRank(sch, r) == CHOOSE c \in 1..Len(sch) : Rank(sch, c) = r

(************************** selection *************************************)
PrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* The command of a path, or 0.
CommandOf(sch, path) ==
    IF \E c \in 1..Len(sch) : sch[c].path = path
    THEN CHOOSE c \in 1..Len(sch) : sch[c].path = path ELSE 0
CanEnter(sch, path, name) == \E c \in 1..Len(sch) : PrefixOf(Append(path, name), sch[c].path)

RECURSIVE Innermost(_, _, _)
\* The command of the longest prefix of path among S, or 0.
Innermost(sch, path, S) ==
    LET c == CommandOf(sch, path)
    IN IF c \in S THEN c
       ELSE IF path = <<>> THEN 0
       ELSE Innermost(sch, SubSeq(path, 1, Len(path) - 1), S)
\* Index of the flag in command c, or 0.
FlagIn(sch, c, name) ==
    IF \E f \in 1..Len(sch[c].flags) : sch[c].flags[f].n = name
    THEN CHOOSE f \in 1..Len(sch[c].flags) : sch[c].flags[f].n = name ELSE 0
Resolve(sch, path, name) ==
    Innermost(sch, path, {c \in 1..Len(sch) : FlagIn(sch, c, name) # 0})
\* Nearest defined command at or above the path.
Current(sch, path) == Innermost(sch, path, 1..Len(sch))

(************************** reports ***************************************)
Bytes(s) == <<Len(s)>> \o s
\* The last number of each is what the receiver finds in its context: the command
\* on which the flag is defined, and the receiver of errors of this very parse (1).
EvSet(c, f, at, arg)        == <<1, c, f, at>> \o Bytes(arg) \o <<c>>
EvToggle(c, f, at, arg, v)  == <<2, c, f, at, v>> \o Bytes(arg) \o <<c>>
EvParse(c, f, at, arg, val) == <<3, c, f, at>> \o Bytes(arg) \o Bytes(val) \o <<c>>
EvParam(c, val)             == <<4, c>> \o Bytes(val) \o <<1>>
EvEnd(c)                    == <<5, c, 1>>
ErShorts(s)      == <<21>> \o Bytes(s)
ErUnknown(s)     == <<22>> \o Bytes(s)
ErToggle(s)      == <<23>> \o Bytes(s)
ErValue(s, v)    == <<24>> \o Bytes(s) \o Bytes(v)
ErNoValue(s)     == <<25>> \o Bytes(s)
ErNotUtf8(s, v)  == <<26>> \o Bytes(s) \o Bytes(v)
ErParam(s)       == <<27>> \o Bytes(s)
ErParamUtf8(s)   == <<28>> \o Bytes(s)

(************************** one argument **********************************)
\* path: names entered; cdone/fdone: no more commands/flags;
\* want: the flag (command, flag, name) whose value comes next, or <<>>.
Start == [path |-> <<>>, cdone |-> FALSE, fdone |-> FALSE, want |-> <<>>]
R(p, reports) == [p |-> p, out |-> reports]

Dash == 45   Equal == 61
No == <<110, 111, 45>>

Parameter(sch, p, arg) ==
    LET c == CommandOf(sch, p.path)
    IN R(p, <<IF c # 0 THEN EvParam(c, arg) ELSE ErParam(arg)>>)

\* --name or --name=value; val is <<>> or <<value>>.
LongFlag(sch, p, name, val) ==
    LET neg == PrefixOf(No, name)
        bare == SubSeq(name, 4, Len(name))
        exact == Resolve(sch, p.path, name)
        c == IF exact # 0 THEN exact ELSE IF neg THEN Resolve(sch, p.path, bare) ELSE 0
        negated == exact = 0
        f == FlagIn(sch, c, IF negated THEN bare ELSE name)
        mode == sch[c].flags[f].m
        at == Rank(sch, Current(sch, p.path))
    IN CASE c = 0 -> R(p, <<ErUnknown(name)>>)
         [] negated /\ mode # Toggle -> R(p, <<ErToggle(name)>>)
         [] mode # Parse /\ val # <<>> -> R(p, <<ErValue(name, val[1])>>)
         [] mode = Set -> R(p, <<EvSet(c, f, at, name)>>)
         [] mode = Toggle -> R(p, <<EvToggle(c, f, at, name, IF negated THEN 0 ELSE 1)>>)
         [] val # <<>> -> R(p, <<EvParse(c, f, at, name, val[1])>>)
         [] OTHER -> R([p EXCEPT !.want = <<c, f, name>>], <<>>)

Argument(sch, p, arg) ==
    LET valid == ValidUpTo(arg)
        front == SubSeq(arg, 1, valid)
        eq == IF \E k \in 3..valid : arg[k] = Equal
              THEN CHOOSE k \in 3..valid : arg[k] = Equal /\ \A j \in 3..(k-1) : arg[j] # Equal ELSE 0
        long == Len(front) >= 2 /\ front[1] = Dash /\ front[2] = Dash
        short == Len(arg) >= 2 /\ arg[1] = Dash
    IN CASE p.want # <<>> ->
               R([p EXCEPT !.want = <<>>],
                 <<EvParse(p.want[1], p.want[2], Rank(sch, Current(sch, p.path)), p.want[3], arg)>>)
         [] ~p.fdone /\ long /\ eq # 0 ->
               LongFlag(sch, p, SubSeq(arg, 3, eq - 1), <<SubSeq(arg, eq + 1, Len(arg))>>)
         [] ~p.fdone /\ long /\ valid < Len(arg) -> R(p, <<ErUnknown(arg)>>)
         [] ~p.fdone /\ long /\ Len(arg) = 2 -> R([p EXCEPT !.cdone = TRUE, !.fdone = TRUE], <<>>)
         [] ~p.fdone /\ long -> LongFlag(sch, p, SubSeq(arg, 3, Len(arg)), <<>>)
         [] ~p.fdone /\ short -> R(p, <<ErShorts(SubSeq(arg, 2, Len(arg)))>>)
         [] ~p.cdone /\ valid = Len(arg) /\ CanEnter(sch, p.path, arg) ->
               R([p EXCEPT !.path = Append(@, arg)], <<>>)
         [] OTHER -> Parameter(sch, [p EXCEPT !.cdone = TRUE], arg)

\* Behind the last argument.
Finish(sch, p) ==
    LET c == CommandOf(sch, p.path)
    IN (IF p.want # <<>> THEN <<ErNoValue(p.want[3])>> ELSE <<>>)
       \o (IF c # 0 THEN <<EvEnd(c)>> ELSE <<>>)

(************************** a whole parse *********************************)
\* brk: number of the report at which the receiver aborts, 0 for never.
\* Outcome: the reports, and 0 and the position of the selected command, or
\* 1 for an incomplete command path, or 2 for aborted.
ParseArgs(sch, args, brk) ==
    LET one(a, arg) == LET r == Argument(sch, a.p, arg) IN [p |-> r.p, out |-> a.out \o r.out]
        end == FoldLeft(one, [p |-> Start, out |-> <<>>], args)
        all == end.out \o Finish(sch, end.p)
        c == CommandOf(sch, end.p.path)
        cut == brk # 0 /\ Len(all) >= brk
    IN [out |-> IF cut THEN SubSeq(all, 1, brk) ELSE all,
        res |-> CASE cut -> <<2, brk>> [] c = 0 -> <<1, 0>> [] OTHER -> <<0, Rank(sch, c)>>]

\* Commands, by declaration, in order of their positions.
Order(sch) == SortSeq([c \in 1..Len(sch) |-> c], LAMBDA x, y : PathLess(sch[x].path, sch[y].path))

\* The schema as seen by introspection: commands in order with the position
\* of the next defined command above (-1: none), flags in order.
Layout(sch) ==
    LET above(c) == LET path == sch[c].path
                    IN IF path = <<>> THEN 0
                       ELSE Innermost(sch, SubSeq(path, 1, Len(path) - 1), 1..Len(sch))
        flags(c) == LET sorted == SortSeq(sch[c].flags, LAMBDA x, y : NameLess(x.n, y.n))
                    IN FlattenSeq([r \in 1..Len(sch[c].flags) |->
                       LET f == sorted[r] IN Bytes(f.n) \o <<f.m>>])
        one(c) == <<Len(sch[c].path)>> \o FlattenSeq([k \in 1..Len(sch[c].path) |-> Bytes(sch[c].path[k])])
                  \o <<IF above(c) = 0 THEN -1 ELSE Rank(sch, above(c)), Len(sch[c].flags)>> \o flags(c)
        order == Order(sch)
    IN FlattenSeq([r \in 1..Len(sch) |-> one(order[r])])

\* Searches: 1 and the position, or 0 and where it would have to be.
SearchCommand(sch, path) ==
    <<IF CommandOf(sch, path) = 0 THEN 0 ELSE 1,
      Cardinality({d \in 1..Len(sch) : PathLess(sch[d].path, path)})>>
SearchFlag(flags, name) ==
    <<IF \E f \in 1..Len(flags) : flags[f].n = name THEN 1 ELSE 0,
      Cardinality({f \in 1..Len(flags) : NameLess(flags[f].n, name)})>>
\* Commands, by declaration, from a position on.
From(sch, at) ==
    LET order == Order(sch)
        one(c) == Bytes(FlattenSeq([k \in 1..Len(sch[c].path) |-> Bytes(sch[c].path[k])]))
    IN FlattenSeq([r \in 1..(Len(sch) - at) |-> one(order[at + r])])

\* Calls: k = 0 parse, k = 1 introspection, k = 2 search for a command,
\* k = 3 search for a flag of the command at a position, k = 4 commands
\* from a position on.
Call(sch, op) ==
    CASE op.k = 1 -> Layout(sch)
      [] op.k = 2 -> SearchCommand(sch, op.path)
      [] op.k = 3 -> SearchFlag(sch[Order(sch)[op.at + 1]].flags, op.n)
      [] op.k = 4 -> From(sch, op.at)
      [] OTHER -> LET r == ParseArgs(sch, op.args, op.b)
                  IN r.res \o <<Len(r.out)>> \o FlattenSeq(r.out)

(************************** receivers *************************************)
\* Kinds of flag receivers and what they hold:
\*  0 option of unit, 1 boolean          set and toggle
\*  2/3 OS text and option of it, 4/5 text, 6/7 owned text
\*  8/9 list of OS text and option of it, 10/11 of text, 12/13 of owned text
\*  14 no operation supported
\*  15 a receiver of the caller, counting up to two reports, aborting on others
\* 20..: the same, shared through a cell.
\* Contents: <<0>> unset or <<1, n, values..>>.
IsToggle(k) == k \in {0, 1}
IsText(k)   == k \in 2..7
IsList(k)   == k \in 8..13
NeedsUtf8(k) == k \in {4, 5, 6, 7, 10, 11, 12, 13}
\* Those that begin with a value rather than unset.
Preset(k) == k \in {1, 2, 4, 6, 8, 10, 12}

Empty(k) == CASE IsToggle(k) -> <<0>>
              [] IsText(k) -> IF Preset(k) THEN <<1, <<>>>> ELSE <<0>>
              [] IsList(k) -> IF Preset(k) THEN <<1, <<>>>> ELSE <<0>>
              [] k = 15 -> <<1, 0>>
              [] OTHER -> <<0>>
ShowValue(k, v) ==
    CASE v = <<0>> -> <<0>>
      [] IsToggle(k) -> <<1>>
      [] IsText(k) -> <<1>> \o Bytes(v[2])
      [] k = 15 -> v
      [] OTHER -> <<1, Len(v[2])>> \o FlattenSeq([j \in 1..Len(v[2]) |-> Bytes(v[2][j])])

Keep(v, er) == [v |-> v, er |-> <<er>>]
Store(v) == [v |-> v, er |-> <<>>]
\* One report of the parser to a receiver of kind k holding v.
Receive(k, v, ev, name, val) ==
    CASE k = 15 -> Store(<<1, v[2] + 1>>)
      [] ev = "set" -> IF IsToggle(k) THEN Store(<<1>>) ELSE Keep(v, ErNoValue(name))
      [] ev = "on"  -> IF IsToggle(k) THEN Store(<<1>>) ELSE Keep(v, ErNoValue(name))
      [] ev = "off" -> IF IsToggle(k) THEN Store(<<0>>) ELSE Keep(v, ErToggle(name))
      [] ev = "parse" ->
            (CASE IsToggle(k) \/ k = 14 -> Keep(v, ErValue(name, val))
               [] NeedsUtf8(k) /\ ~IsUtf8(val) -> Keep(v, ErNotUtf8(name, val))
               [] IsText(k) -> Store(<<1, val>>)
               [] OTHER -> Store(<<1, Append(IF v = <<0>> THEN <<>> ELSE v[2], val)>>))

\* Kinds of command receivers: 0 none, 1/2 list of OS text and option of it,
\* 3/4 of text, 5/6 of owned text, 7 default behaviour.
CmdEmpty(k) == IF k \in {1, 3, 5} THEN <<1, <<>>>> ELSE <<0>>
CmdReceive(k, v, val) ==
    CASE k \in {0, 7} -> Keep(v, ErParam(val))
      [] k \in 3..6 /\ ~IsUtf8(val) -> Keep(v, ErParamUtf8(val))
      [] OTHER -> Store(<<1, Append(IF v = <<0>> THEN <<>> ELSE v[2], val)>>)
ShowList(v) == IF v = <<0>> THEN <<0>>
               ELSE <<1, Len(v[2])>> \o FlattenSeq([j \in 1..Len(v[2]) |-> Bytes(v[2][j])])

\* One command with one flag; cfg: name, mode, kind of both receivers.
\* An argument list is parsed and both receivers are looked at. The caller
\* gathers errors and aborts at the stop-th, 0 for never.
Deliver(cfg, st, ev) ==
    \* what a report of the parser does to the receivers
    LET name(k) == SubSeq(ev, k + 1, k + ev[k])
        val(k) == LET j == k + 1 + ev[k] IN SubSeq(ev, j + 1, j + ev[j])
        flagged(kind, txt, v) ==
            LET r == Receive(cfg.kind, st.flag, kind, txt, v)
            IN [flag |-> r.v, cmd |-> st.cmd, er |-> st.er \o r.er]
    IN CASE ev[1] = 1 -> flagged("set", name(5), <<>>)
         [] ev[1] = 2 -> flagged(IF ev[5] = 1 THEN "on" ELSE "off", name(6), <<>>)
         [] ev[1] = 3 -> flagged("parse", name(5), val(5))
         [] ev[1] = 4 -> LET r == CmdReceive(cfg.ckind, st.cmd, name(3))
                         IN [flag |-> st.flag, cmd |-> r.v, er |-> st.er \o r.er]
         [] ev[1] = 5 -> st
         [] OTHER -> [st EXCEPT !.er = Append(@, ev)]
ReceiverSchema(cfg) == << [path |-> <<>>, flags |-> <<[n |-> cfg.name, m |-> cfg.mode]>>] >>
ReceiverInit(cfg) == [flag |-> Empty(cfg.kind), cmd |-> CmdEmpty(cfg.ckind), er |-> <<>>]
ReceiverCall(cfg, st, args) ==
    LET r == ParseArgs(ReceiverSchema(cfg), args, 0)
        \* once a receiver aborts nothing is reported any more
        one(a, ev) == CASE a.cut -> a
                        [] cfg.kind = 15 /\ ev[1] \in 1..3 /\ a.s.flag[2] = 2 -> [a EXCEPT !.cut = TRUE]
                        [] OTHER -> LET s == Deliver(cfg, a.s, ev)
                                    IN [s |-> s, cut |-> cfg.stop # 0 /\ Len(s.er) = cfg.stop /\ s.er # a.s.er]
        end == FoldLeft(one, [s |-> [st EXCEPT !.er = <<>>], cut |-> FALSE], r.out)
        e == end.s
    IN [st |-> e, obs |-> (IF end.cut THEN <<2, 0>> ELSE r.res) \o ShowValue(cfg.kind, e.flag) \o ShowList(e.cmd)
                          \o <<Len(e.er)>> \o FlattenSeq(e.er)]

(************************** help ******************************************)
\* Schema commands here also have h (description: <<>> or <<text>>), their
\* flags h and help (TRUE: asks for help).
\* Position asked for last, or -1.
HelpFrom(sch, at, evs) ==
    FoldLeft(LAMBDA now, ev : IF ev[1] \in {1, 2} /\ sch[ev[2]].flags[ev[3]].help = 1
                              THEN (IF ev[1] = 2 /\ ev[5] = 0 THEN -1 ELSE ev[4]) ELSE now, at, evs)

Chars(s) == Len(Lossy(s))
MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m
Opt(h) == IF h = <<>> THEN <<0>> ELSE <<1>> \o Bytes(h[1])
HwInfo(s)    == <<1>> \o Bytes(s)
HwSection(s) == <<2>> \o Bytes(s)
HwUsage(entry, path) == <<3>> \o Bytes(entry) \o <<Len(path)>>
                        \o FlattenSeq([k \in 1..Len(path) |-> Bytes(path[k])])
HwFlag(f, w) == <<4>> \o Bytes(f.n) \o <<f.m>> \o Opt(f.h) \o <<w>>
HwCommand(n, h, w) == <<5>> \o Bytes(n) \o Opt(h) \o <<w>>
TUsage == <<85, 115, 97, 103, 101>>
TFlags == <<70, 108, 97, 103, 115>>
TCommands == <<67, 111, 109, 109, 97, 110, 100, 115>>

HelpText(sch, entry, info, c) ==
    LET cmd == sch[c]
        path == cmd.path
        nf == Len(cmd.flags)
        fsort == SortSeq(cmd.flags, LAMBDA a, b : NameLess(a.n, b.n))
        fw == MaxOf({Chars(cmd.flags[k].n) : k \in 1..nf})
        subs == SortSeq(SelectSeq(sch, LAMBDA d : Len(d.path) = Len(path) + 1 /\ PrefixOf(path, d.path)),
                        LAMBDA a, b : PathLess(a.path, b.path))
        sw == MaxOf({Chars(subs[k].path[Len(path) + 1]) : k \in 1..Len(subs)})
    IN <<HwInfo(info), HwSection(TUsage), HwUsage(entry, path)>>
       \o (IF nf = 0 THEN <<>> ELSE <<HwSection(TFlags)>> \o [k \in 1..nf |-> HwFlag(fsort[k], fw)])
       \o (IF subs = <<>> THEN <<>>
           ELSE <<HwSection(TCommands)>>
                \o [k \in 1..Len(subs) |-> HwCommand(subs[k].path[Len(path) + 1], subs[k].h, sw)])

\* Arguments are parsed, then help is rendered by a writer that fails at its
\* brk-th piece.  at: position asked for so far.
HelpCall(in, at, op) ==
    LET r == ParseArgs(in.sch, op.args, 0)
        now == HelpFrom(in.sch, at, r.out)
        all == IF now = -1 THEN <<>> ELSE HelpText(in.sch, in.entry, in.info, AtRank(in.sch, now))
        cut == op.b # 0 /\ Len(all) >= op.b
        w == IF cut THEN SubSeq(all, 1, op.b) ELSE all
    IN [st |-> now,
        obs |-> <<CASE now = -1 -> 0 [] cut -> 2 [] OTHER -> 1, Len(w)>> \o FlattenSeq(w)]
=============================================================================
