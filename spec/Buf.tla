-------------------------------- MODULE Buf --------------------------------
(***************************************************************************)
(* Buffers for streams and mapped data (lib/tmp/src/io/{stream,map}.rs).   *)
(*                                                                         *)
(* in.m: 0 stream reader, 1 stream writer, 2 mapped reader, 3 mapped       *)
(* writer.  in.kind: 0 the provided implementation (slice, vector), 1 and  *)
(* more other implementations of the interface.  Numbers too large for     *)
(* anything are -1 (the largest one), -2 (half of it and one more).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Huge(n) == n < 0
\* Whether a <= b with b present.
Fits(a, b) == ~Huge(a) /\ a <= b
Lower(a, b) == IF a <= b THEN a ELSE b

---------------------------------------------------------------------------
(* Stream reader: data, of which avail bytes have arrived behind pos.      *)
\* A maximum of -3 means none is given.
RECURSIVE Scan(_, _, _, _)
\* First index from n where the byte reaches limit t, at most stop.
Scan(d, n, stop, t) == IF n >= stop THEN n ELSE IF d[n + 1] >= t THEN n ELSE Scan(d, n + 1, stop, t)
ReadStart(in) == [d |-> in.data, avail |-> IF in.kind = 0 THEN Len(in.data) ELSE 0]
(* 0 map(min, max): the first min bytes; 1 advance by n; 2 n more bytes    *)
(* arrive; 3 map while the byte is below t, from index n up to max: where  *)
(* it stopped, and the bytes examined                                      *)
ReadCall(in, s, op) ==
    CASE op.k = 0 -> [st |-> s, obs |-> IF Fits(op.min, s.avail) THEN <<1>> \o Take(s.d, op.min)
                                        ELSE <<0, op.min, op.max>>]
      [] op.k = 1 -> [st |-> [d |-> Drop(s.d, op.n), avail |-> s.avail - op.n], obs |-> <<1>>]
      [] op.k = 2 -> [st |-> [s EXCEPT !.avail = Lower(@ + op.n, Len(s.d))], obs |-> <<1>>]
      [] op.k = 3 ->
            LET stop == IF op.max >= 0 /\ op.max < s.avail THEN op.max ELSE s.avail
                e == Scan(s.d, op.n, stop, op.t)
                refused == e < stop
                seen == SubSeq(s.d, op.n + 1, IF refused THEN e + 1 ELSE e)
            IN [st |-> s,
                obs |-> IF refused THEN <<1, e>> \o seen \o <<-9>> \o Take(s.d, e + 1)
                        ELSE IF e = op.max THEN <<1, e>> \o seen \o <<-9>> \o Take(s.d, e)
                        ELSE <<0, e, e + 1, op.max>> \o seen]
---------------------------------------------------------------------------
(* Stream writer: committed bytes, and initialized ones behind them.       *)
\* Room of the limited implementation; vectors have room for all but huge.
Room(in, s) == IF in.kind = 0 THEN 1000000 ELSE in.limit - Len(s.done)
WriteStart(in) == [done |-> in.data, next |-> <<>>]
Over(s, at, v) == LET n == IF at + Len(v) > Len(s) THEN at + Len(v) ELSE Len(s)
                  IN [k \in 1..n |-> IF k > at /\ k <= at + Len(v) THEN v[k - at] ELSE s[k]]
(* 0 write v; 1 map(min, max) and put v at offset o of it; 2 commit n;     *)
(* 3 map n initialized bytes                                               *)
WriteCall(in, s, op) ==
    CASE op.k = 0 -> IF Len(op.v) <= Room(in, s)
                     THEN [st |-> [done |-> s.done \o op.v, next |-> Drop(s.next, Lower(Len(op.v), Len(s.next)))],
                           obs |-> <<1>> \o s.done \o op.v]
                     ELSE [st |-> s, obs |-> <<0, Len(op.v), Len(op.v)>>]
      [] op.k = 1 -> IF Fits(op.min, Room(in, s))
                     THEN [st |-> [s EXCEPT !.next = Over(@, op.o, op.v)], obs |-> <<1>> \o s.done]
                     ELSE [st |-> s, obs |-> <<0, op.min, op.max>>]
      [] op.k = 2 -> [st |-> [done |-> s.done \o Take(s.next, op.n), next |-> Drop(s.next, op.n)],
                      obs |-> <<1>> \o s.done \o Take(s.next, op.n)]
      [] op.k = 3 -> [st |-> s, obs |-> <<1>> \o Take(s.next, op.n)]
---------------------------------------------------------------------------
(* Mapped reader.  Errors: 2 overflow, 3 exceeded.                         *)
(* 0 map(i, n); 1 read n bytes from i, checked and unchecked               *)
Sum(i, n) == IF Huge(i) \/ Huge(n) THEN (IF i = 0 \/ n = 0 \/ (i # -1 /\ n # -1 /\ (i = -2) # (n = -2)) THEN "huge" ELSE "over")
             ELSE "fine"
Verdict(i, n, room) == CASE Sum(i, n) = "over" -> 2 [] Sum(i, n) = "huge" -> 3
                         [] i + n > room -> 3 [] OTHER -> 1
MapReadCall(in, s, op) ==
    LET v == Verdict(op.i, op.n, Len(s))
        \* In pieces: what is there is read before the end is noticed.
        part == IF op.i <= Len(s) THEN Drop(s, op.i) ELSE <<>>
    IN [st |-> s, obs |->
        CASE op.k = 1 /\ op.n = 0 -> <<1, op.i>>
          [] v = 1 -> <<1, op.i + op.n>> \o SubSeq(s, op.i + 1, op.i + op.n)
          [] op.k = 1 /\ in.kind = 1 /\ ~Huge(op.i) /\ op.n > 0 -> <<3, op.i + Len(part)>> \o part
          [] OTHER -> <<v, op.i>>]
---------------------------------------------------------------------------
(* Mapped writer: committed bytes, and cells behind them (-1 if never      *)
(* written).  All indices count from behind the committed bytes.           *)
MapWriteStart(in) == [done |-> in.data, next |-> <<>>]
Padded(s, n) == IF Len(s) >= n THEN s ELSE s \o [k \in 1..(n - Len(s)) |-> -1]
Cells(s, i, v) == Over(Padded(s, i), i, v)
Limit(in, s) == IF in.kind = 0 THEN 1000000 ELSE in.limit
Rep(b, n) == [k \in 1..n |-> b]
Multiple(i, e) == LET a == 2^e IN ((i + a - 1) \div a) * a
(* 0 write v at i; 1 the same from an iterator; 2 n bytes of b at i;       *)
(* 3 zeros up to a multiple of 2^e; 4 commit n; 5 map n bytes at i;        *)
(* 6 n zeros at i                                                          *)
\* Writing v (or n copies of a byte) at i.  In pieces, what fits is written
\* before the end is noticed.
Placed(in, s, i, v) ==
    LET l == Limit(in, s)
        fit == IF i >= l THEN <<>> ELSE Take(v, Lower(Len(v), l - i))
    IN IF Len(fit) = Len(v)
       THEN [st |-> IF v = <<>> THEN s ELSE [s EXCEPT !.next = Cells(@, i, v)], obs |-> <<1, i + Len(v)>> \o s.done]
       ELSE IF in.kind = 1 /\ fit # <<>> THEN [st |-> [s EXCEPT !.next = Cells(@, i, fit)], obs |-> <<3, i + Len(fit)>> \o s.done]
       ELSE [st |-> s, obs |-> <<3, i>> \o s.done]
HugeWrite(in, s, i, n) ==
    IF n = 0 THEN [st |-> s, obs |-> <<1, i>> \o s.done]
    ELSE [st |-> s, obs |-> <<IF Sum(i, n) = "over" THEN 2 ELSE 3, i>> \o s.done]
MapWriteCall(in, s, op) ==
    CASE op.k \in {0, 1} -> IF Huge(op.i) THEN HugeWrite(in, s, op.i, Len(op.v)) ELSE Placed(in, s, op.i, op.v)
      [] op.k \in {2, 6} -> IF Huge(op.i) \/ Huge(op.n) THEN HugeWrite(in, s, op.i, op.n)
                            ELSE Placed(in, s, op.i, Rep(IF op.k = 6 THEN 0 ELSE op.b, op.n))
      [] op.k = 3 -> CASE op.e >= 64 -> [st |-> s, obs |-> <<2, op.i>> \o s.done]
                       [] op.i = 0 -> [st |-> s, obs |-> <<1, 0>> \o s.done]
                       [] op.e = 63 -> [st |-> s, obs |-> <<3, op.i>> \o s.done]
                       [] OTHER -> Placed(in, s, op.i, Rep(0, Multiple(op.i, op.e) - op.i))
      [] op.k = 4 -> [st |-> [done |-> s.done \o Take(s.next, op.n), next |-> Drop(s.next, op.n)],
                      obs |-> <<1>> \o s.done \o Take(s.next, op.n)]
      [] op.k = 5 -> [st |-> s, obs |->
                      IF Huge(op.i) \/ Huge(op.n) THEN <<IF Sum(op.i, op.n) = "over" THEN 2 ELSE 3>>
                      ELSE IF op.i + op.n > Limit(in, s) THEN <<3>> ELSE <<1>>]
---------------------------------------------------------------------------
Start(in) == CASE in.m = 0 -> ReadStart(in) [] in.m = 1 -> WriteStart(in)
               [] in.m = 2 -> in.data [] in.m = 3 -> MapWriteStart(in)
Call(in, st, op) == CASE in.m = 0 -> ReadCall(in, st, op) [] in.m = 1 -> WriteCall(in, st, op)
                      [] in.m = 2 -> MapReadCall(in, st, op) [] in.m = 3 -> MapWriteCall(in, st, op)
\* When a call keeps to the contract: no advance beyond what is mapped, no
\* commit of cells that were not written, no search behind its own end.
Can(in, s, op) ==
    CASE in.m = 0 /\ op.k = 1 -> op.n <= s.avail
      [] in.m = 0 /\ op.k = 3 -> (op.max >= 0 => op.n < op.max) /\ op.n <= s.avail
      [] in.m = 1 /\ op.k \in {2, 3} -> op.n <= Len(s.next)
      [] in.m = 1 /\ op.k = 1 -> op.o <= Len(s.next) /\ (~Huge(op.min) => op.o + Len(op.v) <= op.min)
      [] in.m = 3 /\ op.k = 4 -> op.n <= Len(s.next) /\ \A k \in 1..op.n : s.next[k] >= 0
      [] OTHER -> TRUE
\* The other implementations bring their own answers to some requests.
Own(in, op) == in.kind # 0 /\ CASE in.m = 2 -> op.k = 0 \/ Huge(op.i)
                                  [] in.m = 3 -> CASE op.k = 4 -> FALSE
                                                   [] op.k = 5 -> TRUE
                                                   [] op.k = 3 -> op.e >= 31
                                                   [] op.k \in {2, 6} -> Huge(op.i) \/ Huge(op.n)
                                                   [] OTHER -> Huge(op.i)
                                  [] OTHER -> FALSE
=============================================================================
