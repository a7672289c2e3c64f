-------------------------------- MODULE Dvar -------------------------------
(***************************************************************************)
(* D-Bus wire format (lib/tmp/src/fmt/dbus/dvar.rs): encoders and          *)
(* decoders that are led through a signature call by call.                 *)
(*                                                                         *)
(* in.m: 0 encoder, 1 decoder.  in.sig: the signature.  in.be: byte order. *)
(* in.data: what the buffer holds before (encoder), the bytes to decode.   *)
(* in.limit: room for a message, -1 if unlimited.                          *)
(* in.faults: places of the message, in order; an access to such a place   *)
(* fails, once.                                                            *)
(* Outcomes: 1 done, 2 mismatch, 3 pending, 4 length overflow, 5 not       *)
(* UTF-8, 7 data or room exceeded, 8 an access failed.                     *)
(***************************************************************************)
EXTENDS Sig, Utf8

Zeros(n) == [k \in 1..n |-> 0]
\* Bytes, most significant first, in the chosen order.
Ordered(in, v) == IF in.be = 1 THEN v ELSE Reverse(v)
Len4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Gap(n, e) == LET a == 2^e IN (a - (n % a)) % a
\* out, padded to a multiple of 2^e.
Aligned(out, e) == out \o Zeros(Gap(Len(out), e))
\* The first fault that an access to n bytes at pos meets, 0 if none; the
\* call is refused and that fault is over.
Meets(st, pos, n) == LET hit == {k \in 1..Len(st.faults) : st.faults[k] >= pos /\ st.faults[k] < pos + n}
                     IN IF hit = {} THEN 0 ELSE CHOOSE k \in hit : \A j \in hit : k <= j
Failed(st, pos, n) == LET k == Meets(st, pos, n)
                      IN Same([st EXCEPT !.faults = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))], <<8>>)
cU16 == 113   cU32 == 117   cU64 == 116   cSTRING == 115   cOBJECT == 111   cSIGNATURE == 103

---------------------------------------------------------------------------
(* Encoders.  es: the encoder and those nested into it; each with its      *)
(* signature, the place in it, the message so far, and the containers open *)
(* in it: kind, where the length is stored and the data starts (arrays),   *)
(* and the signature around (variants).  vis: what the buffer holds.       *)
NewEnc(s, out) == [s |-> s, p |-> Parse(s), i |-> 0, out |-> out, open |-> <<>>, committed |-> FALSE]
EncStart(in) == [es |-> <<NewEnc(in.sig, <<>>)>>, vis |-> in.data, faults |-> in.faults]
At(e) == ElementAt(e.s, e.i)
StepOf(e) == IdxStep(e.s, e.p, e.i)
Stepped(e) == LET j == StepOf(e) IN IF j = -1 THEN e ELSE [e EXCEPT !.i = j]
\* The innermost encoder becomes e, unless it has become too long or the
\* bytes cannot be written.
With(in, st, e) == LET n == Len(Last(st.es).out)
                   IN IF in.limit >= 0 /\ Len(e.out) > in.limit THEN Same(st, <<7>>)
                      ELSE IF Meets(st, n, Len(e.out) - n) # 0 THEN Failed(st, n, Len(e.out) - n)
                      ELSE Same([st EXCEPT !.es = Append(Front(@), e)], <<1>>)
No(st, why) == Same(st, <<why>>)
\* A plain value.
EncFixed(in, st, c, v) ==
    LET e == Last(st.es)
    IN IF At(e) # c THEN No(st, 2)
       ELSE With(in, st, Stepped([e EXCEPT !.out = Aligned(@, DAlign(c)) \o Ordered(in, v)]))
EncText(in, st, c, v) ==
    LET e == Last(st.es)
    IN CASE At(e) # c -> No(st, 2)
         [] c = cSIGNATURE /\ Len(v) > 255 -> No(st, 4)
         [] c = cSIGNATURE -> With(in, st, Stepped([e EXCEPT !.out = @ \o <<Len(v)>> \o v \o <<0>>]))
         [] OTHER -> With(in, st, Stepped([e EXCEPT !.out = Aligned(@, 2) \o Ordered(in, Len4(Len(v))) \o v \o <<0>>]))
\* Text whose length cannot be told.
EncHuge(st, c) == No(st, IF At(Last(st.es)) # c THEN 2 ELSE 4)
\* The variant has its own signature; it is left with close.
EncVariant(in, st, v) ==
    LET e == Last(st.es)
        out == e.out \o <<Len(v)>> \o v \o <<0>>
    IN CASE At(e) # cVARIANT -> No(st, 2)
         [] Len(v) > 255 -> No(st, 4)
         [] OTHER -> With(in, st, [e EXCEPT !.out = out, !.s = v, !.p = Parse(v), !.i = 0,
                         !.open = Append(@, [k |-> cVARIANT, s |-> e.s, p |-> e.p, i |-> e.i])])
\* The length of an array is known, and stored, when it is closed.
EncArray(in, st) ==
    LET e == Last(st.es)
        at == Aligned(e.out, 2)
        out == Aligned(at \o Zeros(4), DAlign(e.s[e.i + 2]))
    IN IF At(e) # cARRAY THEN No(st, 2)
       ELSE With(in, st, [e EXCEPT !.out = out, !.i = @ + 1,
                         !.open = Append(@, [k |-> cARRAY, len |-> Len(at), from |-> Len(out)])])
EncOpen(in, st, c) ==
    LET e == Last(st.es)
    IN IF At(e) # c THEN No(st, 2)
       ELSE With(in, st, [e EXCEPT !.out = Aligned(@, 3), !.i = @ + 1, !.open = Append(@, [k |-> c])])
\* Whether the length stored for the innermost array cannot be written.
LengthFails(st, e, top) == top.k = cARRAY /\ Len(e.out) > top.from /\ Meets(st, top.len, 4) # 0
Stored(in, out, at, n) == LET v == Ordered(in, Len4(n))
                          IN [k \in 1..Len(out) |-> IF k > at /\ k <= at + 4 THEN v[k - at] ELSE out[k]]
EncClose(in, st) ==
    LET e == Last(st.es)
        top == Last(e.open)
        q == [e EXCEPT !.open = Front(@)]
    IN IF StepOf(e) # -1 \/ e.open = <<>> THEN No(st, 2)
       ELSE IF LengthFails(st, e, top) THEN Failed(st, top.len, 4)
       ELSE With(in, st, Stepped(
            CASE top.k = cVARIANT -> [q EXCEPT !.s = top.s, !.p = top.p, !.i = top.i]
              [] top.k = cARRAY -> [q EXCEPT !.i = IdxUp(e.s, e.p, e.i),
                                             !.out = Stored(in, @, top.len, Len(e.out) - top.from)]
              [] OTHER -> [q EXCEPT !.i = IdxUp(e.s, e.p, e.i)]))
EncCommit(in, st) ==
    LET e == Last(st.es)
        n == Len(st.es)
        done == [e EXCEPT !.committed = TRUE]
    IN CASE StepOf(e) # -1 \/ e.open # <<>> -> No(st, 3)
         [] e.committed -> Same(st, <<1>>)
         [] n = 1 -> Same([st EXCEPT !.es = <<done>>, !.vis = @ \o e.out], <<1>>)
         [] OTHER -> Same([st EXCEPT !.es[n] = done, !.es[n - 1] = [Stepped(@) EXCEPT !.out = e.out]], <<1>>)
\* A nested encoder for the type at the place of the innermost one.
EncNest(in, st) ==
    LET e == Last(st.es)
        t == TypeText(e.s, e.p, e.i)
    IN IF t = <<-1>> THEN No(st, 2) ELSE Same([st EXCEPT !.es = Append(@, NewEnc(t, e.out))], <<1>>)
EncNestWith(in, st, v) ==
    LET e == Last(st.es) IN IF TypeText(e.s, e.p, e.i) # v THEN No(st, 2) ELSE EncNest(in, st)
---------------------------------------------------------------------------
(* Decoders: the place in the signature and in the data, and the arrays    *)
(* open, each with its end.                                                *)
NewDec(s, pos) == [s |-> s, p |-> Parse(s), i |-> 0, pos |-> pos, ends |-> <<>>, committed |-> FALSE]
DecStart(in) == [ds |-> <<NewDec(in.sig, 0)>>, faults |-> in.faults]
RoundUp(n, e) == n + Gap(n, e)
Huge == 1000000000
Number(v) == IF v[1] >= 32 THEN Huge ELSE ((v[1] * 256 + v[2]) * 256 + v[3]) * 256 + v[4]
\* Whether n bytes are there at pos.
There(in, pos, n) == n = 0 \/ (n < Huge /\ pos + n <= Len(in.data))
Bytes(in, pos, n) == SubSeq(in.data, pos + 1, pos + n)
NowDec(st, d, obs) == Same([st EXCEPT !.ds = Append(Front(@), d)], obs)
DecU16(in, st) ==
    LET d == Last(st.ds)
        at == RoundUp(d.pos, 1)
    IN CASE At(d) # cU16 -> No(st, 2)
         [] Meets(st, at, 2) # 0 -> Failed(st, at, 2)
         [] ~There(in, at, 2) -> No(st, 7)
         [] OTHER -> NowDec(st, Stepped([d EXCEPT !.pos = at + 2]), <<1>> \o Ordered(in, Bytes(in, at, 2)))
\* Text behind a length of w bytes.  The byte behind it is not examined.
DecText(in, st, c, w) ==
    LET d == Last(st.ds)
        at == IF w = 4 THEN RoundUp(d.pos, 2) ELSE d.pos
        v == Ordered(in, Bytes(in, at, w))
        n == IF w = 4 THEN Number(v) ELSE v[1]
    IN CASE At(d) # c -> No(st, 2)
         [] Meets(st, at, w) # 0 -> Failed(st, at, w)
         [] ~There(in, at, w) -> No(st, 7)
         [] Meets(st, at + w, n) # 0 -> Failed(st, at + w, n)
         [] ~There(in, at + w, n) -> No(st, 7)
         [] ~IsUtf8(Bytes(in, at + w, n)) -> No(st, 5)
         [] OTHER -> NowDec(st, Stepped([d EXCEPT !.pos = at + w + n + 1]), <<1>> \o Bytes(in, at + w, n))
DecArray(in, st) ==
    LET d == Last(st.ds)
        at == RoundUp(d.pos, 2)
        from == RoundUp(at + 4, DAlign(d.s[d.i + 2]))
        n == Number(Ordered(in, Bytes(in, at, 4)))
    IN CASE At(d) # cARRAY -> No(st, 2)
         [] Meets(st, at, 4) # 0 -> Failed(st, at, 4)
         [] ~There(in, at, 4) -> No(st, 7)
         [] OTHER -> NowDec(st, [d EXCEPT !.pos = from, !.i = @ + 1, !.ends = Append(@, from + n)], <<1>>)
More(d) == d.ends # <<>> /\ d.pos < Last(d.ends)
DecClose(in, st) ==
    LET d == Last(st.ds)
    IN IF StepOf(d) # -1 \/ d.ends = <<>> THEN No(st, 2)
       ELSE NowDec(st, Stepped([d EXCEPT !.i = IdxUp(d.s, d.p, d.i), !.ends = Front(@)]), <<1>>)
DecCommit(in, st) ==
    LET d == Last(st.ds)
        n == Len(st.ds)
        done == [d EXCEPT !.committed = TRUE]
    IN CASE StepOf(d) # -1 \/ d.ends # <<>> -> No(st, 3)
         [] d.committed \/ n = 1 -> NowDec(st, done, <<1>>)
         [] OTHER -> Same([st EXCEPT !.ds[n] = done, !.ds[n - 1] = [Stepped(@) EXCEPT !.pos = d.pos]], <<1>>)
DecNest(in, st) ==
    LET d == Last(st.ds)
        t == TypeText(d.s, d.p, d.i)
    IN IF t = <<-1>> THEN No(st, 2) ELSE Same([st EXCEPT !.ds = Append(@, NewDec(t, d.pos))], <<1>>)
DecNestWith(in, st, v) ==
    LET d == Last(st.ds) IN IF TypeText(d.s, d.p, d.i) # v THEN No(st, 2) ELSE DecNest(in, st)
---------------------------------------------------------------------------
(* 1 u16 2 u32 3 u64 4 string 5 object 6 signature 7 variant of type v     *)
(* 8 array 9 structure 10 dict 11 close 12 commit 13 nest 14 nest with     *)
(* signature v 15 drop the innermost nested one 16 drop all and start over *)
(* 17 whether there are more elements 18 19 20 string, object, signature   *)
(* of 2^32 bytes and some 21 the place n fails from now on, once           *)
EncCall(in, st, op) ==
    CASE op.k = 1 -> EncFixed(in, st, cU16, op.v)
      [] op.k = 2 -> EncFixed(in, st, cU32, op.v)
      [] op.k = 3 -> EncFixed(in, st, cU64, op.v)
      [] op.k = 4 -> EncText(in, st, cSTRING, op.v)
      [] op.k = 5 -> EncText(in, st, cOBJECT, op.v)
      [] op.k = 6 -> EncText(in, st, cSIGNATURE, op.v)
      [] op.k = 7 -> EncVariant(in, st, op.v)
      [] op.k = 8 -> EncArray(in, st)
      [] op.k = 9 -> EncOpen(in, st, cSTRUCT)
      [] op.k = 10 -> EncOpen(in, st, cDICT)
      [] op.k = 11 -> EncClose(in, st)
      [] op.k = 12 -> EncCommit(in, st)
      [] op.k = 13 -> EncNest(in, st)
      [] op.k = 14 -> EncNestWith(in, st, op.v)
      [] op.k = 15 -> IF Len(st.es) = 1 THEN No(st, -5) ELSE Same([st EXCEPT !.es = Front(@)], <<1>>)
      [] op.k = 16 -> Same([st EXCEPT !.es = <<NewEnc(in.sig, <<>>)>>], st.vis)
      [] op.k = 18 -> EncHuge(st, cSTRING)
      [] op.k = 19 -> EncHuge(st, cOBJECT)
      [] op.k = 20 -> EncHuge(st, cSIGNATURE)
      [] op.k = 21 -> Same([st EXCEPT !.faults = <<op.n>>], <<1>>)
\* The caller asks for elements of arrays only if there are more, and leaves
\* them when there are none.
DecSkips(st, op) ==
    LET d == Last(st.ds)
    IN d.ends # <<>> /\ IF op.k = 11 THEN More(d) ELSE op.k \in {1, 4, 6, 8, 13, 14} /\ ~More(d)
DecCall(in, st, op) ==
    CASE in.wild = 1 -> Same(st, <<0>>)
      [] DecSkips(st, op) -> No(st, -5)
      [] op.k = 1 -> DecU16(in, st)
      [] op.k = 4 -> DecText(in, st, cSTRING, 4)
      [] op.k = 6 -> DecText(in, st, cSIGNATURE, 1)
      [] op.k = 8 -> DecArray(in, st)
      [] op.k = 11 -> DecClose(in, st)
      [] op.k = 12 -> DecCommit(in, st)
      [] op.k = 13 -> DecNest(in, st)
      [] op.k = 14 -> DecNestWith(in, st, op.v)
      [] op.k = 15 -> IF Len(st.ds) = 1 THEN No(st, -5) ELSE Same([st EXCEPT !.ds = Front(@)], <<1>>)
      [] op.k = 16 -> Same([st EXCEPT !.ds = DecStart(in).ds], <<1>>)
      [] op.k = 17 -> Same(st, <<Bit(More(Last(st.ds)))>>)
Begun(in) == IF in.m = 0 THEN EncStart(in) ELSE DecStart(in)
Do(in, st, op) == IF in.m = 0 THEN EncCall(in, st, op) ELSE DecCall(in, st, op)
=============================================================================
