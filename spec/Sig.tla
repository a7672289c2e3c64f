-------------------------------- MODULE Sig --------------------------------
(***************************************************************************)
(* D-Bus signatures (lib/tmp/src/fmt/dbus/{element,signature}.rs): which   *)
(* strings are types, what is wrong with the others, and cursors walking   *)
(* over the elements of a type.  Strings are sequences of bytes, indices   *)
(* into them start with 0, and -1 stands for "none".                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

---------------------------------------------------------------------------
(* Elements: y q n u i t x d b s o g h v a m ( ) { }                       *)
cARRAY == 97   cMAYBE == 109   cSTRUCT == 40   cSTRUCTEND == 41   cDICT == 123   cDICTEND == 125
cVARIANT == 118
\* code, alignment and size on the D-Bus wire, alignment and size as GVariant
Fixed == { <<121, 0, 1, 0, 1>>, <<113, 1, 2, 1, 2>>, <<110, 1, 2, 1, 2>>, <<117, 2, 4, 2, 4>>,
           <<105, 2, 4, 2, 4>>, <<116, 3, 8, 3, 8>>, <<120, 3, 8, 3, 8>>, <<100, 3, 8, 3, 8>>,
           <<98, 2, 4, 0, 1>>, <<104, 2, 4, 2, 4>> }
Texts == { <<115, 2, 0, 0, 0>>, <<111, 2, 0, 0, 0>>, <<103, 0, 0, 0, 0>> }
Others == { <<118, 0, 0, 3, 0>>, <<97, 2, 0, 0, 0>>, <<109, 2, 0, 0, 0>>,
            <<40, 3, 0, 0, 0>>, <<41, 0, 0, 0, 0>>, <<123, 3, 0, 0, 0>>, <<125, 0, 0, 0, 0>> }
Table == Fixed \cup Texts \cup Others
Codes == {e[1] : e \in Table}
Basics == {e[1] : e \in Fixed \cup Texts}
Row == [c \in Codes |-> CHOOSE e \in Table : e[1] = c]
DAlign(c) == Row[c][2]
GAlign(c) == Row[c][4]
Bound(c) == c \in {cARRAY, cMAYBE}
Opens(c) == Bound(c) \/ c \in {cSTRUCT, cDICT}
Closes(c) == c \in {cSTRUCTEND, cDICTEND}
Pair(c) == CASE c = cSTRUCT -> cSTRUCTEND [] c = cSTRUCTEND -> cSTRUCT
             [] c = cDICT -> cDICTEND [] c = cDICTEND -> cDICT [] OTHER -> -1
Bit(b) == IF b THEN 1 ELSE 0
(* Whether it can start a type, opens, closes, is basic, has a size that   *)
(* depends on the value, is a variant, is a handle.                        *)
Element(c) ==
    IF c \notin Codes THEN <<-1>>
    ELSE <<c, Pair(c)>> \o Tail(Row[c])
         \o <<Bit(~Closes(c)), Bit(Opens(c)), Bit(Closes(c)), Bit(c \in Basics),
              Bit(c \in {e[1] : e \in Texts} \cup {cVARIANT, cARRAY, cMAYBE}), Bit(c = cVARIANT), Bit(c = 104)>>
---------------------------------------------------------------------------
(* Reading a string element by element.  open: the containers not yet      *)
(* closed, each with its index, the number of types in it, and whether the *)
(* first of these is basic.  For every element: the index of its container *)
(* (up), its number there (pos), the length of the type starting with it   *)
(* (len), and the alignment of that as GVariant (gal).                     *)
Begin == [open |-> <<>>, up |-> <<>>, pos |-> <<>>, len |-> <<>>, gal |-> <<>>, err |-> <<>>, done |-> FALSE]
Greater(a, b) == IF a >= b THEN a ELSE b
RECURSIVE Completed(_, _, _)
\* The type starting at index at is complete; bound containers with it.
Completed(s, p, at) ==
    IF p.open = <<>> THEN [p EXCEPT !.done = TRUE]
    ELSE LET top == Last(p.open)
             t == top.at + 1
             q == [p EXCEPT !.len[t] = @ + p.len[at + 1], !.gal[t] = Greater(@, p.gal[at + 1])]
         IN IF Bound(s[t]) THEN Completed(s, [q EXCEPT !.open = Front(@)], top.at)
            ELSE [q EXCEPT !.open = Append(Front(@), [top EXCEPT !.n = @ + 1,
                                   !.key = IF top.n = 0 THEN s[at + 1] \in Basics ELSE @])]
Read(s, p, i) ==
    LET c == s[i + 1]
        up == IF p.open = <<>> THEN -1 ELSE Last(p.open).at
        q == [p EXCEPT !.up = Append(@, up), !.pos = Append(@, IF up = -1 THEN 0 ELSE Last(p.open).n),
                       !.len = Append(@, 1), !.gal = Append(@, GAlign(c))]
    IN CASE p.err # <<>> -> p
         [] p.done -> [p EXCEPT !.err = <<3, i>>]
         [] c >= 128 -> [p EXCEPT !.err = <<5, i, c>>]
         [] c \notin Codes -> [p EXCEPT !.err = <<6, i, c>>]
         [] Opens(c) -> [q EXCEPT !.open = Append(@, [at |-> i, n |-> 0, key |-> FALSE])]
         [] Closes(c) ->
                CASE up = -1 -> [p EXCEPT !.err = <<7, i>>]
                  [] s[up + 1] # Pair(c) -> [p EXCEPT !.err = <<8, up, i, Pair(c)>>]
                  [] c = cDICTEND /\ ~(Last(p.open).n = 2 /\ Last(p.open).key) -> [p EXCEPT !.err = <<9, up>>]
                  [] OTHER -> Completed(s, [q EXCEPT !.open = Front(@), !.len[up + 1] = @ + 1], up)
         [] OTHER -> Completed(s, q, i)
Parse(s) ==
    LET p == FoldLeft(LAMBDA q, i : Read(s, q, i), Begin, [k \in 1..Len(s) |-> k - 1])
    IN IF s = <<>> THEN [Begin EXCEPT !.err = <<2>>]
       ELSE IF p.err = <<>> /\ ~p.done THEN [p EXCEPT !.err = <<4, Last(p.open).at>>]
       ELSE p
Valid(s) == Parse(s).err = <<>>

(* The same as a grammar: the length of the type at index i, 0 if there is *)
(* none.                                                                   *)
RECURSIVE TypeAt(_, _), TypesAt(_, _)
TypeAt(s, i) ==
    IF i >= Len(s) THEN 0
    ELSE LET c == s[i + 1] IN
         CASE c \in Basics \cup {cVARIANT} -> 1
           [] Bound(c) -> LET n == TypeAt(s, i + 1) IN IF n = 0 THEN 0 ELSE n + 1
           [] c = cSTRUCT -> LET n == TypesAt(s, i + 1)
                             IN IF i + n + 1 < Len(s) /\ s[i + n + 2] = cSTRUCTEND THEN n + 2 ELSE 0
           [] c = cDICT -> IF i + 1 >= Len(s) \/ s[i + 2] \notin Basics THEN 0
                           ELSE LET n == TypeAt(s, i + 2)
                                IN IF n > 0 /\ i + n + 2 < Len(s) /\ s[i + n + 3] = cDICTEND THEN n + 3 ELSE 0
           [] OTHER -> 0
TypesAt(s, i) == LET n == TypeAt(s, i) IN IF n = 0 THEN 0 ELSE n + TypesAt(s, i + n)
IsType(s) == s # <<>> /\ TypeAt(s, 0) = Len(s)

\* Lexicographic order.
RECURSIVE Cmp(_, _)
Cmp(a, b) == CASE a = <<>> /\ b = <<>> -> 0 [] a = <<>> -> -1 [] b = <<>> -> 1
               [] a[1] < b[1] -> -1 [] a[1] > b[1] -> 1 [] OTHER -> Cmp(Tail(a), Tail(b))
---------------------------------------------------------------------------
(* Cursors: over the string s with p = Parse(s), at index i, where i may   *)
(* be Len(s).                                                              *)
Here(s, i) == i >= 0 /\ i < Len(s)
IdxNext(s, p, i) == IF i < Len(s) THEN i + 1 ELSE -1
IdxPrev(s, p, i) == IF i > 0 THEN i - 1 ELSE -1
IdxDown(s, p, i) == IF Here(s, i) /\ Opens(s[i + 1]) THEN i + 1 ELSE -1
IdxUp(s, p, i) == IF Here(s, i) THEN p.up[i + 1] ELSE -1
IdxStep(s, p, i) ==
    CASE ~Here(s, i) -> -1
      [] i = 0 -> p.len[1]
      [] Bound(s[p.up[i + 1] + 1]) -> -1
      [] Closes(s[i + 1]) -> -1
      [] OTHER -> i + p.len[i + 1]
ElementAt(s, i) == IF Here(s, i) THEN s[i + 1] ELSE -1
TypeText(s, p, i) == IF Here(s, i) /\ ~Closes(s[i + 1]) THEN SubSeq(s, i + 1, i + p.len[i + 1]) ELSE <<-1>>
PosAt(s, p, i) == IF i = 0 THEN 0 ELSE IF Here(s, i) THEN p.pos[i + 1] ELSE -1
LenAt(s, p, i) == IF Here(s, i) THEN p.len[i + 1] ELSE -1
Look(s, p, i) ==
    <<i, ElementAt(s, i), PosAt(s, p, i), LenAt(s, p, i),
      ElementAt(s, IdxDown(s, p, i)), ElementAt(s, IdxUp(s, p, i)),
      IF Here(s, i) THEN DAlign(s[i + 1]) ELSE -1, IF Here(s, i) THEN p.gal[i + 1] ELSE -1,
      IdxNext(s, p, i), IdxPrev(s, p, i), IdxStep(s, p, i), IdxDown(s, p, i), IdxUp(s, p, i),
      Len(s) - i>> \o TypeText(s, p, i)
---------------------------------------------------------------------------
(* Calls.  in.sigs: some strings.  in.cut: where to cut a type out of the  *)
(* first of them, which the cursor walks over; -1 if there is no cursor.   *)
(* 1 make signature n in one of the ways w; 2 compare signatures n and o;  *)
(* 3 make it with x words more or less of memory; 4 properties of the      *)
(* element with code c;                                                    *)
(* 11 next 12 previous 13 step 14 down 15 up 16 move to index i; 17 next   *)
(* element as iterator; 18 look at index i from afar; 19 a new cursor at i *)
Walked(in) == IF in.cut < 0 THEN <<>>
              ELSE LET p == Parse(in.sigs[1]) IN TypeText(in.sigs[1], p, in.cut)
Start(in) == LET s == Walked(in) IN [s |-> s, p |-> IF s = <<>> THEN Begin ELSE Parse(s), i |-> 0]
Made(s) == LET e == Parse(s).err IN IF e # <<>> THEN e ELSE <<0, Len(s)>> \o s
Went(st, i) == LET j == IF i = -1 THEN st.i ELSE IF i > Len(st.s) THEN Len(st.s) ELSE i
               IN [st |-> [st EXCEPT !.i = j], obs |-> Look(st.s, st.p, j)]
Same(st, obs) == [st |-> st, obs |-> obs]
Call(in, st, op) ==
    CASE op.k = 1 -> Same(st, Made(in.sigs[op.n]))
      [] op.k = 2 -> LET c == Cmp(in.sigs[op.n], in.sigs[op.o]) IN Same(st, <<Bit(c = 0), c>>)
      [] op.k = 3 -> Same(st, <<Bit(Valid(in.sigs[op.n]) /\ op.x >= 0)>>)
      [] op.k = 4 -> Same(st, Element(op.c))
      [] op.k = 11 -> Went(st, IdxNext(st.s, st.p, st.i))
      [] op.k = 12 -> Went(st, IdxPrev(st.s, st.p, st.i))
      [] op.k = 13 -> Went(st, IdxStep(st.s, st.p, st.i))
      [] op.k = 14 -> Went(st, IdxDown(st.s, st.p, st.i))
      [] op.k = 15 -> Went(st, IdxUp(st.s, st.p, st.i))
      [] op.k \in {16, 19} -> Went(st, op.i)
      [] op.k = 17 -> LET r == Went(st, IdxNext(st.s, st.p, st.i))
                      IN [r EXCEPT !.obs = <<ElementAt(st.s, st.i)>> \o @]
      [] op.k = 18 -> Same(st, <<ElementAt(st.s, op.i), PosAt(st.s, st.p, op.i), LenAt(st.s, st.p, op.i)>>
                               \o TypeText(st.s, st.p, op.i))
=============================================================================
