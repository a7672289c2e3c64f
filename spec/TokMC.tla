------------------------------- MODULE TokMC -------------------------------
(***************************************************************************)
(* Exploration of JSON streams: texts of up to MaxPieces pieces of Pieces, *)
(* all at hand (Mode "text", "tree"), or arriving in up to three portions   *)
(* with calls between them (Mode "arrive", "treearrive").                  *)
(***************************************************************************)
EXTENDS Tok, TLC, Json

CONSTANTS Mode, Pieces, MaxPieces, Openings, Calls
VARIABLES in, n, st, out, done
vars == <<in, n, st, out, done>>

Tree == Mode \in {"tree", "treearrive"}
Arrive == Mode \in {"arrive", "treearrive"}
Make(d, ops) == [m |-> IF Tree THEN 1 ELSE 0, kind |-> IF Arrive THEN 1 ELSE 0, data |-> d, chunk |-> Len(ops) % 3, ops |-> ops]
Op(k, c) == [k |-> k, n |-> c]

Init == /\ \E d \in Openings : in = Make(d, <<>>)
        /\ n = 0 /\ out = <<>> /\ done = FALSE
        /\ st = Start(in)
\* Longer texts; arriving ones have their pieces arrive one by one.
Extend(p) == /\ ~done /\ n < MaxPieces /\ in.ops = <<>>
             /\ in' = [in EXCEPT !.data = @ \o p]
             /\ n' = n + 1
             /\ st' = Start(in')
             /\ UNCHANGED <<out, done>>
Perform(op) == LET r == Call(in, st, op)
               IN /\ in' = [in EXCEPT !.ops = Append(@, op), !.chunk = (@ + 1) % 3]
                  /\ out' = Append(out, r.obs)
                  /\ st' = r.st
                  /\ UNCHANGED n
Report(i, o) == PrintT("BEHAVIOUR " \o ToJson([in |-> i, out |-> o]))
\* All at hand: everything at once.
Finish == /\ ~done /\ ~Arrive
          /\ LET p == Call(in, st, Op(3, 0))
                 c == Call(in, p.st, Op(4, 0))
                 i == [in EXCEPT !.ops = IF Tree THEN <<Op(3, 0)>> ELSE <<Op(3, 0), Op(4, 0)>>]
                 o == IF Tree THEN <<p.obs>> ELSE <<p.obs, c.obs>>
             IN /\ Report(i, o)
                /\ in' = i /\ out' = o /\ st' = IF Tree THEN p.st ELSE c.st
          /\ done' = TRUE /\ UNCHANGED n
\* Arriving: any calls while there is data to come, then the end.
Portions == Len(SelectSeq(in.ops, LAMBDA op : op.k = 0))
Step == /\ ~done /\ Arrive
        /\ \E op \in Calls \union {Op(0, c) : c \in 1..(Len(in.data) - st.avail)} :
                /\ Can(in, st, op)
                /\ op.k = 0 => Portions < 2 \/ (Portions = 2 /\ st.avail + op.n = Len(in.data))
                /\ op.k # 0 => st.avail < Len(in.data) /\ IF in.ops = <<>> THEN TRUE ELSE Last(in.ops).k = 0
                /\ Perform(op)
        /\ done' = FALSE
Last3 == /\ ~done /\ Arrive /\ st.avail = Len(in.data)
         /\ LET p == Call(in, st, Op(3, 0))
                c == Call(in, p.st, Op(4, 0))
                i == [in EXCEPT !.ops = @ \o (IF Tree THEN <<Op(3, 0)>> ELSE <<Op(3, 0), Op(4, 0)>>)]
                o == out \o (IF Tree THEN <<p.obs>> ELSE <<p.obs, c.obs>>)
            IN /\ Report(i, o)
               /\ in' = i /\ out' = o /\ st' = IF Tree THEN p.st ELSE c.st
         /\ done' = TRUE /\ UNCHANGED n
Next == Finish \/ Step \/ Last3 \/ \E p \in Pieces : Extend(p)
---------------------------------------------------------------------------
(* What has to hold.                                                       *)
\* Everything is consumed at the end.
Consumed == (done /\ ~Tree) => st.pos = Len(in.data)
\* Bytes a token covers.
Raw(e) == CASE e[1] = 1 -> Tail(e)
            [] e[1] \in 2..7 -> <<<<58>>, <<44>>, <<91>>, <<93>>, <<123>>, <<125>>>>[e[1] - 1]
            [] e[1] = 8 -> <<110, 117, 108, 108>> [] e[1] = 9 -> <<102, 97, 108, 115, 101>>
            [] e[1] = 10 -> <<116, 114, 117, 101>>
            [] e[1] \in {11, 12} -> Sub(e, 3, e[2])
            [] e[1] = 22 -> Drop(e, 3) [] e[1] = 23 -> Tail(e)
            [] e[1] = 29 -> Sub(e, 5, e[4])
            [] OTHER -> <<>>
\* All events of a text that ended.
RECURSIVE All(_)
All(d) == IF d = <<>> THEN <<>> ELSE LET e == Events(d, TRUE) IN e.ev \o All(Drop(d, e.len))
Covered(d) == FlattenSeq([k \in 1..Len(All(d)) |-> Raw(All(d)[k])])
Partition == in.ops = <<>> => LET c == Covered(in.data)
                              IN IF \E k \in 1..Len(All(in.data)) : All(in.data)[k] = EStringIncomplete
                                 THEN IsPrefix(c, in.data) ELSE c = in.data
\* What is reported never depends on bytes not there yet.
Monotone == in.ops = <<>> => \A k \in 0..Len(in.data) :
                IsPrefix(Events(Sub(in.data, 1, k), FALSE).ev, Events(in.data, FALSE).ev)
\* However the bytes arrived, together the calls report the same.
Flat(o) == FlattenSeq([k \in 1..Len(o) |-> o[k]])
\* The outcomes without the requests for more (0 alone).
Kept(ops, o) == Flat([k \in 1..Len(o) |-> IF ops[k].k = 0 THEN <<>>
                       ELSE IF o[k] = <<0>> THEN <<>>
                       ELSE IF ops[k].k = 3 THEN SubSeq(o[k], 1, Len(o[k]) - 1)
                       ELSE IF ops[k].k = 1 THEN o[k] \o <<-9>>
                       ELSE o[k]])
AtOnce == LET i == [in EXCEPT !.kind = 0]
              p == Call(i, Start(i), Op(3, 0))
              c == Call(i, p.st, Op(4, 0))
          IN IF Tree THEN Kept(<<Op(3, 0)>>, <<p.obs>>) ELSE Kept(<<Op(3, 0), Op(4, 0)>>, <<p.obs, c.obs>>)
\* Told too early, the end only says that data remains.
Early == \E k \in 1..(Len(out) - 1) : in.ops[k].k = 2
Independent == (done /\ Arrive /\ ~Early) => Kept(in.ops, out) = AtOnce
\* Containers close in the order they opened; open ones surround the place.
RECURSIVE Nest(_, _)
Nest(o, up) == IF o = <<>> THEN up
               ELSE CASE o[1] \in {4, 6} -> Nest(Tail(o), Append(up, o[1] + 1))
                      [] OTHER -> IF up # <<>> /\ Last(up) = o[1] THEN Nest(Tail(o), Front(up)) ELSE <<0>>
Nested == LET o == FlattenSeq([k \in 1..Len(out) |-> SelectSeq(out[k], LAMBDA x : x \in 4..7)])
              up == Nest(o, <<>>)
          IN (done /\ Tree) => /\ up # <<0>>
                               /\ Len(up) = Len(st.up) + IF st.place \in {"root", "done"} THEN 0 ELSE 1
                               /\ (up = <<>>) <=> st.place \in {"root", "done"}
\* Documents, with what has to be reported for them.
Doc(t, i) == [text |-> t, items |-> i]
Scalars == {Doc(<<49>>, <<2>>), Doc(<<34, 92, 34, 34>>, <<2>>), Doc(<<116, 114, 117, 101>>, <<2>>)}
Key == <<34, 97, 34, 58>>
Docs1(S) == S \union {Doc(<<91, 93>>, <<4, 5>>), Doc(<<32, 123, 32, 125>>, <<6, 7>>)}
            \union {Doc(<<91>> \o a.text \o <<93, 10>>, <<4>> \o a.items \o <<5>>) : a \in S}
            \union {Doc(<<123>> \o Key \o a.text \o <<125>>, <<6, 3>> \o a.items \o <<7>>) : a \in S}
            \union {Doc(<<91>> \o a.text \o <<44>> \o b.text \o <<93>>, <<4>> \o a.items \o b.items \o <<5>>) : a \in S, b \in S}
            \union {Doc(<<123>> \o Key \o a.text \o <<44, 32>> \o Key \o b.text \o <<125>>, <<6, 3>> \o a.items \o <<3>> \o b.items \o <<7>>) : a \in S, b \in S}
Docs == Docs1(Docs1(Scalars))
DocTexts == {d.text \o <<32>> : d \in Docs}
\* Documents are reported as they are.
Exact == (done /\ Mode = "tree" /\ n = 0) =>
            \E d \in Docs : d.text \o <<32>> = in.data /\ SelectSeq(out[1], LAMBDA x : x \notin {-9, 0}) = d.items

\* Pieces.
Chr(S) == {<<c>> : c \in S}
All0 == {<<>>}
PAny == Chr({34, 92, 32, 44, 58, 91, 93, 123, 125, 48, 45, 46, 101, 110, 97, 128}) \union {<<110, 117, 108, 108>>}
PNum == Chr({43, 45, 48, 57, 46, 101, 69, 44, 34, 120})
PStr == Chr({34, 92, 117, 47, 110, 122, 48, 31, 32, 10, 195, 169}) \union
        {<<92, 117, 100, 56, 51, 68>>, <<92, 117, 68, 69, 48, 48>>, <<92, 117, 48, 48, 101, 57>>, <<100, 56, 48, 48>>}
OStr == {<<34>>}
ONum == {<<>>, <<45>>, <<49>>, <<43>>}
PArr == Chr({34, 92, 44, 48, 45, 46, 101, 32, 91}) \union {<<92, 117, 100, 56, 51, 68>>, <<92, 117, 68, 69, 48, 48>>, <<110, 117>>, <<108, 108>>}
PTree == Chr({44, 58, 91, 93, 123, 125}) \union {<<34, 97, 34>>, <<49, 32>>, <<43>>}
PTreeA == Chr({44, 58, 91, 93, 123, 125}) \union {<<34, 97, 34>>, <<49, 32>>}
\* Every byte in every place.
PEach == Chr(0..255) \union {<<c, 34>> : c \in 0..255}
Esc(v) == <<34, 97, 92, 117>> \o v
D8 == <<100, 56, 51, 68>>
OEach == {<<>>, <<32>>, <<45>>, <<43>>, <<48>>, <<49>>, <<49, 46>>, <<49, 46, 53>>, <<49, 101>>, <<49, 101, 45>>, <<49, 101, 53>>,
          <<110, 117, 108>>, <<110, 117, 108, 108>>, <<34>>, <<34, 195>>, <<34, 92>>, Esc(<<>>), Esc(<<48>>), Esc(<<48, 65>>), Esc(<<100, 56, 51>>),
          Esc(<<68, 69, 48>>), Esc(D8), Esc(D8) \o <<92>>, Esc(D8) \o <<92, 117>>, Esc(D8) \o <<92, 117, 100>>,
          Esc(D8) \o <<92, 117, 68, 69, 48>>, Esc(D8) \o <<92, 117>> \o <<100, 56, 51>>}
CallsOne == {}
CallsArr == {Op(1, 0), Op(2, 0), Op(3, 0)}
CallsTree == {Op(1, 0), Op(3, 0)}
=============================================================================
