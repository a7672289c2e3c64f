-------------------------------- MODULE Own --------------------------------
(***************************************************************************)
(* Ownership: conversions between owned, shared, borrowed, pinned, raw and *)
(* maybe-owned forms (lib/osi/src/{convert,ptr,pin,mown,cmp,error}.rs).    *)
(*                                                                         *)
(* An object has a value and counts its owners and how often it was        *)
(* dropped.  A handle has a form and refers to an object; detached forms   *)
(* remember the form they came from, as only that one may be made of them. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Dead == 0
Box == 1   Rc == 2   Arc == 3   PinBox == 4   PinRc == 5   PinArc == 6
Ref == 7   Mut == 8  PinRef == 9  PinMut == 10
Once == 11 PinOnce == 12   Raw == 13   MownOwned == 14   MownBorrowed == 15

\* Forms that own their object, alone or with others.
Owning == {Box, Rc, Arc, PinBox, PinRc, PinArc, MownOwned}
Shared == {Rc, Arc, PinRc, PinArc, MownOwned}
Copyable == Shared \cup {Ref, PinRef, Raw, MownBorrowed}
Mowns == {MownOwned, MownBorrowed}
\* Objects of the other forms live elsewhere.

New == [objs |-> <<>>, hs |-> <<>>]
Obj(v, f) == [v |-> v, n |-> IF f \in Owning THEN 1 ELSE 0, drops |-> 0]
Handle(f, o, from) == [f |-> f, o |-> o, from |-> from]

Drops(s) == [k \in 1..Len(s.objs) |-> s.objs[k].drops]
\* What can be seen of handle h, and all drops so far.  Address: 1 for the
\* one the object was made at.
Look(s, h) ==
    LET x == s.hs[h]
    IN (IF x.f = Dead THEN <<0>>
        ELSE <<x.f, s.objs[x.o].v, 1>> \o (IF x.f \in Shared THEN <<s.objs[x.o].n>> ELSE <<>>))
       \o <<-1>> \o Drops(s)
Res(s, h) == [st |-> s, obs |-> Look(s, h)]
As(s, h, f, from) == Res([s EXCEPT !.hs[h].f = f, !.hs[h].from = from], h)

Release(s, h) ==
    LET x == s.hs[h]
        o == s.objs[x.o]
        t == [s EXCEPT !.hs[h].f = Dead]
    IN IF x.f \notin Owning THEN t
       ELSE [t EXCEPT !.objs[x.o].n = @ - 1, !.objs[x.o].drops = IF o.n = 1 THEN 1 ELSE 0]

Pinned(f) == CASE f = Box -> PinBox [] f = Rc -> PinRc [] f = Arc -> PinArc
               [] f = Ref -> PinRef [] f = Mut -> PinMut
Unpinned(f) == CHOOSE g \in {Box, Rc, Arc, Ref, Mut} : Pinned(g) = f

(* Calls on handle h:                                                      *)
(*  1 make an object of value v in form f                                  *)
(*  2 detach: the pointer alone stays         3 the same, pinned           *)
(*  4 attach: make the original form again    5 the same, pinned           *)
(*  6 clone    7 drop    8 write v    9 pass through raw form number j     *)
(* 10 pin     11 unpin  12 pinned mutable to pinned shared                 *)
(* 13 reference to raw  14 raw to reference  15 look by every accessor     *)
(* 16 are h and g the same object            17 compare contents           *)
(* 18 wrap as maybe-owned                    19 unwrap                     *)
(* 20 detach a pinned reference by conversion                              *)
Call(s, op) ==
    LET h == op.h
        x == s.hs[h]
    IN CASE op.k = 1 ->
              Res([objs |-> Append(s.objs, Obj(op.v, op.f)),
                   hs |-> Append(s.hs, Handle(op.f, Len(s.objs) + 1, Dead))], Len(s.hs) + 1)
         [] op.k = 2 -> As(s, h, Once, x.f)
         [] op.k = 3 -> As(s, h, PinOnce, x.f)
         [] op.k = 4 -> As(s, h, x.from, Dead)
         [] op.k = 5 -> As(s, h, x.from, Dead)
         [] op.k = 6 -> LET t == IF x.f \in Owning THEN [s EXCEPT !.objs[x.o].n = @ + 1] ELSE s
                        IN Res([t EXCEPT !.hs = Append(@, x)], Len(s.hs) + 1)
         [] op.k = 7 -> Res(Release(s, h), h)
         [] op.k = 8 -> Res([s EXCEPT !.objs[x.o].v = op.v], h)
         [] op.k = 9 -> Res(s, h)
         [] op.k = 10 -> As(s, h, Pinned(x.f), x.from)
         [] op.k = 11 -> As(s, h, Unpinned(x.f), x.from)
         [] op.k = 12 -> As(s, h, PinRef, x.from)
         [] op.k = 13 -> As(s, h, Raw, x.from)
         [] op.k = 14 -> As(s, h, Ref, x.from)
         [] op.k = 15 -> Res(s, h)
         [] op.k = 16 -> [st |-> s, obs |-> <<IF x.o = s.hs[op.g].o THEN 1 ELSE 0>>]
         [] op.k = 17 -> LET a == s.objs[x.o].v
                             b == s.objs[s.hs[op.g].o].v
                         IN [st |-> s, obs |-> <<IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0,
                                                 IF x.f = MownOwned THEN 1 ELSE 0>>]
         [] op.k = 18 -> As(s, h, IF x.f = Rc THEN MownOwned ELSE MownBorrowed, x.from)
         [] op.k = 19 -> As(s, h, IF x.f = MownOwned THEN Rc ELSE Ref, x.from)
         [] op.k = 20 -> As(s, h, PinOnce, x.f)

\* When a call makes sense.
Alone(s, h) == \A g \in 1..Len(s.hs) : (g # h /\ s.hs[g].f # Dead) => s.hs[g].o # s.hs[h].o
Can(s, op) ==
    LET h == op.h
        x == s.hs[h]
    IN CASE op.k = 1 -> op.f \in 1..10 \cup {MownOwned, MownBorrowed}
         [] op.k \notin 1..20 \/ h > Len(s.hs) \/ x.f = Dead -> FALSE
         [] op.k = 2 -> x.f \in {Box, Rc, Arc, Ref, Mut}
         [] op.k = 3 -> x.f \in {PinBox, PinRc, PinArc, PinRef, PinMut}
         [] op.k = 4 -> x.f = Once
         [] op.k = 5 -> x.f = PinOnce
         [] op.k = 6 -> x.f \in Copyable
         [] op.k = 7 -> TRUE
         [] op.k = 8 -> Alone(s, h) /\ (x.f \in {Box, Mut, PinMut} \/ (x.f = Once /\ x.from \in {Box, Mut}))
         [] op.k = 9 -> (x.f = Once /\ (op.j \in {3, 5} => x.from \in {Box, Mut})) \/ (x.f = Raw /\ op.j \notin {3, 5})
         [] op.k = 10 -> x.f \in {Box, Rc, Arc, Ref, Mut}
         [] op.k = 11 -> x.f \in {PinBox, PinRc, PinArc, PinRef, PinMut}
         [] op.k = 12 -> x.f = PinMut
         [] op.k = 13 -> x.f = Ref
         [] op.k = 14 -> x.f = Raw
         [] op.k = 15 -> TRUE
         [] op.k = 16 -> op.g <= Len(s.hs) /\ s.hs[op.g].f # Dead
         [] op.k = 17 -> op.g <= Len(s.hs) /\ x.f \in Mowns /\ s.hs[op.g].f \in Mowns
         [] op.k = 18 -> x.f \in {Rc, Ref}
         [] op.k = 19 -> x.f \in Mowns
         [] op.k = 20 -> x.f \in {PinRef, PinMut}
=============================================================================
