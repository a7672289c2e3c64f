------------------------------- MODULE DvarMC ------------------------------
(* All sequences of calls, with at most MaxBad refused ones, for some      *)
(* signatures; if Straight, until the end of the message.  Messages to     *)
(* decode are well-formed or damaged in one place.  With faults, all calls *)
(* but those that meet them are right.                                     *)
EXTENDS Dvar, TLC, Json, FiniteSets
CONSTANTS Mode, Depth, MaxBad, Rich, Straight
VARIABLES in, st, ops, out, bad
vars == <<in, st, ops, out, bad>>
T(s) == s
q == 113  u == 117  t == 116  s == 115  o == 111  g == 103  v == 118  a == 97
EncSigs == {<<q>>, <<u>>, <<t>>, <<s>>, <<o>>, <<g>>, <<v>>, <<121>>, <<a, q>>, <<a, t>>, <<a, a, q>>,
            <<40, q, t, 41>>, <<40, 41>>, <<40, s, 40, q, 41, u, 41>>, <<a, 123, s, v, 125>>, <<a, 40, g, t, 41>>, <<123, q, v, 125>>,
            <<40, g, a, u, q, 41>>, <<109, q>>}
Buffers == {<<0, <<>>, -1, 0>>, <<1, <<9, 9, 9>>, -1, 0>>, <<1, <<9>>, 13, 3>>, <<0, <<9, 9>>, 22, 0>>}
FaultsPick == {<<>>}
FaultsSome == {<<p>> : p \in 0..23} \cup {<<p, p>> : p \in {0, 4, 9}} \cup {<<p, p + 5>> : p \in {0, 3, 8}}
Faulty == <<>> \notin FaultsPick
EncPick == {[faults |-> f, m |-> 0, sig |-> x, be |-> b[1], way |-> Len(x) % 4, data |-> b[2], limit |-> b[3], chunk |-> b[4], wild |-> 0] :
             x \in EncSigs, b \in {c \in Buffers : Faulty => c[3] = -1}, f \in FaultsPick}
EncPool == {[k |-> 1, v |-> <<1, 2>>], [k |-> 2, v |-> <<1, 2, 3, 4>>], [k |-> 3, v |-> <<1, 2, 3, 4, 5, 6, 7, 8>>],
            [k |-> 4, v |-> <<>>], [k |-> 4, v |-> <<97, 0, 98>>], [k |-> 5, v |-> <<47>>], [k |-> 6, v |-> <<97, 115>>]}
           \cup {[k |-> 7, v |-> x, w |-> 0] : x \in (IF Rich THEN {<<q>>, <<v>>, <<a, t>>, <<40, 41>>} ELSE {<<q>>, <<a, t>>})}
           \cup {[k |-> k] : k \in {8, 9, 10, 11, 12, 13, 15, 16}}
           \cup {[k |-> 14, v |-> x, w |-> 1] : x \in {<<q>>, <<a, q>>}}
---------------------------------------------------------------------------
(* The wire format as a function of type and value: numbers are bytes,     *)
(* texts sequences of bytes, arrays sequences of values.                   *)
RECURSIVE Wire(_, _, _, _)
Wire(in0, ty, val, out0) ==
    LET x == Head(ty)
        from == Aligned(Aligned(out0, 2) \o Zeros(4), DAlign(ty[2]))
        all == FoldLeft(LAMBDA acc, w : Wire(in0, Tail(ty), w, acc), from, val)
    IN CASE x = q -> Aligned(out0, 1) \o Ordered(in0, val)
         [] x = s -> Aligned(out0, 2) \o Ordered(in0, Len4(Len(val))) \o val \o <<0>>
         [] x = g -> out0 \o <<Len(val)>> \o val \o <<0>>
         [] x = a -> Stored(in0, all, Len(Aligned(out0, 2)), Len(all) - Len(from))
Values == { <<<<q>>, <<1, 2>>>>, <<<<s>>, <<>>>>, <<<<s>>, <<97, 195, 169>>>>, <<<<g>>, <<115, 117>>>>,
            <<<<a, q>>, <<<<1, 2>>, <<3, 4>>>>>>, <<<<a, s>>, <<>>>>, <<<<a, s>>, <<<<97>>, <<>>, <<98, 99>>>>>>,
            <<<<a, g>>, <<<<115>>, <<>>>>>>, <<<<a, a, q>>, <<<<<<1, 2>>>>, <<>>, <<<<3, 4>>, <<5, 6>>>>>>>>,
            <<<<a, a, s>>, <<<<<<97>>>>, <<>>>>>> }
\* No elements of types that need padding.
Odd == { <<<<a, 40, q, 41>>, <<0, 0, 0, 0, 0, 0, 0, 0>>>>, <<<<a, t>>, <<0, 0, 0, 0>>>>, <<<<a, a, t>>, <<0, 0, 0, 4, 0, 0, 0, 0>>>>, <<<<v>>, <<1, 113, 0>>>> }
Order(b) == [be |-> b]
Good == {<<x[1], b, Wire(Order(b), x[1], x[2], <<>>)>> : x \in Values, b \in 0..1}
        \cup {<<x[1], 1, x[2]>> : x \in Odd}
Cut(w) == {SubSeq(w, 1, n) : n \in 0..Len(w)}
Changed(w) == {[w EXCEPT ![n] = x] : n \in 1..Len(w), x \in {0, 1, 4, 195, 255}}
DecIns == {[faults |-> f, m |-> 1, sig |-> m[1], be |-> m[2], way |-> 0, data |-> d, limit |-> -1, chunk |-> c, wild |-> 0] :
             m \in Good, d \in {<<>>}, c \in {0}, f \in FaultsPick}
DecAll == UNION {{[x EXCEPT !.data = d, !.chunk = IF Len(d) % 3 = 1 THEN 2 ELSE 0] :
                    d \in IF Faulty THEN {m[3], Front(m[3])} ELSE Cut(m[3]) \cup Changed(m[3]) \cup {m[3] \o <<7>>}} :
                 <<x, m>> \in {<<y, n>> \in DecIns \X Good : y.sig = n[1] /\ y.be = n[2]}}
DecPool == {[k |-> k] : k \in {1, 4, 6, 8, 11, 12, 13, 15, 16, 17}} \cup {[k |-> 14, v |-> x, w |-> 0] : x \in {<<a, q>>, <<s>>}}
---------------------------------------------------------------------------
Init == /\ in \in (IF Mode = 0 THEN EncPick ELSE DecAll)
        /\ st = Begun(in) /\ ops = <<>> /\ out = <<>> /\ bad = 0
Refused(obs, op) == op.k # 16 /\ op.k # 17 /\ obs[1] # 1
\* Asking whether there is more, and going astray twice, adds nothing.
Sensible(op) == /\ op.k = 17 => ops # <<>> /\ ops[Len(ops)].k # 17
                /\ op.k = 16 => ops # <<>> /\ Len(ops) + 1 <= Depth
                /\ op.k = 12 /\ ops # <<>> => IF ops[Len(ops)].k = 12 THEN out[Len(out)] # <<1>> /\ FALSE ELSE TRUE
Nested == IF Mode = 0 THEN Len(st.es) ELSE Len(st.ds)
Ended == ops # <<>> /\ ops[Len(ops)].k = 16
\* Let the length of the array just complete fail.
Arm == IF Mode = 0 /\ in.faults = <<0>> /\ st.faults = <<>> /\ Last(st.es).open # <<>>
       THEN LET e == Last(st.es)
                top == Last(e.open)
            IN IF top.k = cARRAY /\ Len(e.out) > top.from THEN {[k |-> 21, n |-> top.len + d] : d \in {0, 3}} ELSE {}
       ELSE {}
Armed == ops # <<>> /\ ops[Len(ops)].k = 21
Next == /\ Len(ops) < Depth /\ ~Ended
        /\ \E op \in (IF Mode = 1 THEN DecPool ELSE IF Armed THEN {[k |-> 11]} ELSE EncPool \cup Arm) :
              /\ Sensible(op)
              /\ op.k \in {13, 14} => Nested < (IF Straight THEN 2 - Mode ELSE 3)
              /\ Straight => /\ op.k = 16 => ops[Len(ops)].k = 12 /\ Nested = 1
                             /\ op.k \in {15, 17} => Nested > 1 /\ ops[Len(ops)].k = 12
                             /\ op.k \in {14, 17} => FALSE
                             /\ op.k = 13 => bad = 0 /\ Len(ops) < 4
              /\ op.k = 15 => Nested > 1
              /\ Len(ops) + 1 = Depth => op.k = 16 \/ Straight
              /\ LET r == Do(in, st, op)
                     b == bad + Bit(Refused(r.obs, op))
                 IN /\ b <= MaxBad
                    /\ Faulty /\ Refused(r.obs, op) => r.obs[1] = 8
                    /\ st' = r.st /\ out' = Append(out, r.obs) /\ bad' = b
              /\ ops' = Append(ops, op)
              /\ UNCHANGED in
        /\ (ops'[Len(ops')].k = 16 => PrintT("BEHAVIOUR " \o ToJson([in |-> [ops |-> ops'] @@ in, out |-> out'])))
Op == ops'[Len(ops')]
Obs == out'[Len(out')]
---------------------------------------------------------------------------
(* What is encoded is read back by the rules of the format: the place      *)
(* behind the type ty at from, -1 if there is none.                        *)
RECURSIVE Behind(_, _, _), All(_, _, _, _)
Zero(w, from, to) == \A k \in from + 1..to : w[k] = 0
Behind(ty, w, from) ==
    LET x == ty[1]
        n == IF x \in Codes THEN DAlign(x) ELSE 0
        at == RoundUp(from, n)
        size == Row[x][3]
        num == Number(Ordered(in, SubSeq(w, at + 1, at + 4)))
        start == RoundUp(at + 4, DAlign(ty[2]))
        close == LET l == Parse(ty).len[1] IN SubSeq(ty, 2, l - 1)
        vt == SubSeq(w, from + 2, from + 1 + w[from + 1])
    IN IF at > Len(w) \/ ~Zero(w, from, at) THEN -1
       ELSE CASE size > 0 -> IF at + size <= Len(w) THEN at + size ELSE -1
              [] x \in {s, o} -> IF at + 4 + num + 1 <= Len(w) /\ w[at + 4 + num + 1] = 0 THEN at + 4 + num + 1 ELSE -1
              [] x = g -> IF w[at + 1 + w[at + 1] + 1] = 0 THEN at + 2 + w[at + 1] ELSE -1
              [] x = v -> IF Valid(vt) /\ w[from + 2 + Len(vt)] = 0 THEN Behind(vt, w, from + 2 + Len(vt)) ELSE -1
              [] x = a -> IF ~Zero(w, at + 4, start) THEN -1 ELSE All(SubSeq(ty, 2, Parse(ty).len[1]), w, start, start + num)
              [] x \in {40, 123} -> FoldLeft(LAMBDA pos, k : IF pos = -1 THEN -1 ELSE Behind(SubSeq(ty, k, Len(ty)), w, pos), at,
                                     SelectSeq([k \in 1..Parse(ty).len[1] |-> k], LAMBDA k : Parse(ty).up[k] = 0 /\ ~Closes(ty[k])))
              [] OTHER -> -1
All(ty, w, from, to) == IF from = to THEN from ELSE IF from > to THEN -1
                        ELSE LET n == Behind(ty, w, from) IN IF n = -1 THEN -1 ELSE All(ty, w, n, to)
WellFormed == Mode = 0 /\ st.es[1].committed =>
              Behind(in.sig, st.es[1].out, 0) = Len(st.es[1].out)
\* Only a commit of the outermost one shows, and what was there before stays.
Visible == [][Mode = 0 => st'.vis = st.vis \/ (Op.k = 12 /\ Nested = 1 /\ st'.vis = st.vis \o st.es[1].out)]_vars
RefusedKeeps == [][Refused(Obs, Op) => [st' EXCEPT !.faults = st.faults] = st /\ (Obs = <<8>> <=> st'.faults # st.faults)]_vars
CommitWhole == [][Op.k = 12 /\ Obs = <<1>> =>
                  LET e == IF Mode = 0 THEN Last(st.es) ELSE Last(st.ds) IN e.i = Len(e.s)]_vars
\* Limits hold.
Bounded == Mode = 0 /\ in.limit >= 0 => \A k \in 1..Len(st.es) : Len(st.es[k].out) <= in.limit
---------------------------------------------------------------------------
(* Decoding what was encoded gives the values.                             *)
RECURSIVE Decoded(_, _, _)
\* The values of type ty, in the order of the calls; the state behind.
Each(in0, r, ty) == Decoded(in0, r, ty)
RECURSIVE Elements(_, _, _)
Decoded(in0, r, ty) ==
    LET k == CASE ty[1] = q -> 1 [] ty[1] = s -> 4 [] ty[1] = g -> 6 [] OTHER -> 8
        n == Do(in0, r.st, [k |-> k])
    IN IF k # 8 THEN [st |-> n.st, got |-> Tail(n.obs)]
       ELSE LET e == Elements(in0, [st |-> n.st, got |-> <<>>], Tail(ty))
            IN [st |-> Do(in0, e.st, [k |-> 11]).st, got |-> e.got]
Elements(in0, r, ty) ==
    IF Do(in0, r.st, [k |-> 17]).obs = <<0>> THEN r
    ELSE LET x == Decoded(in0, r, ty) IN Elements(in0, [st |-> x.st, got |-> Append(r.got, x.got)], ty)
RoundTrip == \A x \in Values, b \in 0..1 :
    LET in0 == [m |-> 1, sig |-> x[1], be |-> b, data |-> Wire(Order(b), x[1], x[2], <<>>), wild |-> 0, faults |-> <<>>]
        r == Decoded(in0, [st |-> Begun(in0), got |-> <<>>], x[1])
    IN r.got = x[2] /\ Do(in0, r.st, [k |-> 12]).obs = <<1>>
ASSUME RoundTrip
=============================================================================
