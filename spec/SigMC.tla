------------------------------- MODULE SigMC -------------------------------
(* Strings grow element by element behind a prefix; every one of them is   *)
(* judged.  With Moves > 0, cursors walk over those that are types, and    *)
(* over all types cut out of them.                                         *)
EXTENDS Sig, TLC, Json, FiniteSets
CONSTANTS Alphabet, MaxLen, Prefixed, Moves
VARIABLES in, grown, st, ops, out
vars == <<in, grown, st, ops, out>>
Rep(c, n) == [k \in 1..n |-> c]
Heads == CASE Prefixed = 0 -> {<<>>}
           [] Prefixed = 1 -> {Rep(97, 28), Rep(40, 28), <<40>> \o Rep(115, 27), Rep(97, 13) \o Rep(40, 15), <<40>> \o Rep(116, 28),
                               <<123, 115>> \o Rep(109, 26)}
           [] Prefixed = 2 -> {<<40>> \o Rep(116, 27), Rep(97, 27)}
S == in.sigs[1]
Blank(s) == [sigs |-> <<s>>, cut |-> -1, own |-> 0]
Init == \E h \in Heads : in = Blank(h) /\ grown = 0 /\ st = Start(Blank(h)) /\ ops = <<>> /\ out = <<>>
Emit(i, o, r) == PrintT("BEHAVIOUR " \o ToJson([in |-> [ops |-> o] @@ i, out |-> r]))
\* All ways of making it, memory of the wrong size, and its last element.
Judged(s) ==
    LET o == [w \in 1..9 |-> [k |-> 1, n |-> 1, w |-> w - 1]]
             \o [x \in 1..5 |-> [k |-> 3, n |-> 1, x |-> <<-7, -1, 0, 1, 6>>[x]]]
             \o (IF Valid(s) THEN <<[k |-> 2, n |-> 1, o |-> 1]>> ELSE <<>>)
             \o <<[k |-> 4, c |-> IF s = <<>> THEN 0 ELSE Last(s)]>>
    IN Emit(Blank(s), o, [k \in 1..Len(o) |-> Call(Blank(s), Start(Blank(s)), o[k]).obs])
Hopeful(s) == LET e == Parse(s).err IN IF e = <<>> THEN TRUE ELSE e[1] \in {2, 4}
Grow == /\ grown < MaxLen /\ in.cut = -1
        /\ IF Moves > 0 THEN Hopeful(S) ELSE TRUE
        /\ \E c \in Alphabet : in' = Blank(Append(S, c))
        /\ grown' = grown + 1
        /\ UNCHANGED <<st, ops, out>>
        /\ (Moves = 0 => Judged(S'))
Walk == /\ Moves > 0 /\ in.cut = -1 /\ Valid(S)
        /\ \E j \in 0..Len(S) - 1 : ~Closes(S[j + 1]) /\ in' = [Blank(S) EXCEPT !.cut = j, !.own = j % 2]
        /\ st' = Start(in')
        /\ UNCHANGED <<grown, ops, out>>
Pool == {[k |-> k] : k \in {11, 12, 13, 14, 15, 17}}
        \cup {[k |-> k, i |-> i] : k \in {16, 18, 19}, i \in {0, Len(st.s) \div 2, Len(st.s) - 1, Len(st.s) + 1}}
Move == /\ in.cut >= 0 /\ Len(ops) < Moves
        /\ \E op \in Pool :
              /\ (op.k \in {12, 15} => ops # <<>>) /\ (op.k \in {18, 19} => Len(ops) + 1 = Moves)
              /\ LET r == Call(in, st, op) IN st' = r.st /\ out' = Append(out, r.obs)
              /\ ops' = Append(ops, op)
        /\ UNCHANGED <<in, grown>>
        /\ (Len(ops') = Moves => Emit(in, ops', out'))
Next == Grow \/ Walk \/ Move
---------------------------------------------------------------------------
Grammar == Valid(S) = IsType(S)
\* Once something is wrong, nothing behind it matters.
FirstDefect == [][Parse(S).err # <<>> /\ Parse(S).err[1] \notin {2, 4} => Parse(S').err = Parse(S).err]_S
Enclosing(s, p, i) == {j \in 0..i - 1 : Opens(s[j + 1]) /\ j + p.len[j + 1] > i}
Tree == LET p == Parse(S) IN Valid(S) =>
        \A i \in 0..Len(S) - 1 :
            /\ ~Closes(S[i + 1]) => p.len[i + 1] = TypeAt(S, i)
            /\ LET e == Enclosing(S, p, i)
                   u == IF e = {} THEN -1 ELSE CHOOSE j \in e : \A k \in e : k <= j
               IN /\ p.up[i + 1] = u
                  /\ p.pos[i + 1] = Cardinality({j \in 0..i - 1 : p.up[j + 1] = u})
\* Every place is a place of the type, and stepping stays in the container.
Inside == in.cut >= 0 => st.i \in 0..Len(st.s) /\ IsType(st.s)
StepStays == LET j == IdxStep(st.s, st.p, st.i) IN in.cut >= 0 /\ j >= 0 =>
             j = Len(st.s) \/ st.p.up[j + 1] = st.p.up[st.i + 1]
DownUp == LET d == IdxDown(st.s, st.p, st.i) IN in.cut >= 0 /\ d >= 0 => IdxUp(st.s, st.p, d) = st.i
\* A type cut out is walked the same way as within the larger one.
Cut == in.cut >= 0 /\ st.i > 0 /\ st.i < Len(st.s) =>
       LET p == Parse(S) IN /\ p.up[st.i + in.cut + 1] = st.p.up[st.i + 1] + in.cut
                            /\ p.pos[st.i + in.cut + 1] = st.p.pos[st.i + 1]
                            /\ p.gal[st.i + in.cut + 1] = st.p.gal[st.i + 1]
=============================================================================
