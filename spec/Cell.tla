-------------------------------- MODULE Cell --------------------------------
(***************************************************************************)
(* Fixed-layout containers (lib/osi/src/ffi/{packed,integer,pointer,abi}.rs*)
(* and lib/osi/src/align.rs): their layout, their use as cells, and        *)
(* pointers made of addresses.                                             *)
(***************************************************************************)
EXTENDS Num, SequencesExt

---------------------------------------------------------------------------
(* Layout.  A type has size, alignment and whether it lacks a value (so    *)
(* that an optional one needs no room of its own).                         *)
T(s, a, z) == [size |-> s, align |-> a, spare |-> z]
Up(n, a) == ((n + a - 1) \div a) * a

\* ABIs: 0 of this machine in native types, 1 aarch64, 2 x86, 3 x86_64,
\* 4 the one of this machine, which is x86_64.
\* Types: signed 8, 16, 32, 64, 128, size; unsigned likewise; float 32, 64;
\* address; pointer.
AbiSize(abi, t) == LET word == IF abi = 2 THEN 4 ELSE 8
                   IN <<1, 2, 4, 8, 16, word, 1, 2, 4, 8, 16, word, 4, 8, word, word>>[t + 1]
AbiType(abi, t) == LET s == AbiSize(abi, t)
                   IN T(s, IF abi = 2 /\ s = 8 THEN 4 ELSE s, IF t >= 14 THEN 1 ELSE 0)
\* Plain types of this machine: 0..13 as above, then char, bool, unit,
\* reference, three 16-bit numbers.
Plain(t) == IF t <= 13 THEN AbiType(3, t)
            ELSE <<T(4, 4, 1), T(1, 1, 1), T(0, 1, 0), T(8, 8, 1), T(6, 2, 0)>>[t - 13]
TypeOf(op) ==
    CASE op.k = 0 -> AbiType(op.abi, op.t)
      [] op.k = 1 -> T(0, op.n, 0)                             \* marker of alignment n
      [] op.k = 2 -> T(0, Plain(op.t).align, 0)                \* marker of the alignment of a type
      [] op.k = 3 -> T(Plain(op.t).size, 1, Plain(op.t).spare) \* packed
      [] op.k = 4 -> T(Up(Plain(op.t).size, op.n), op.n, Plain(op.t).spare)
\* Size and alignment, offset behind one byte, size of byte - value - byte,
\* size of three in a row, whether optional ones are as large.
LayoutObs(t) == <<t.size, t.align, Up(1, t.align), Up(Up(1, t.align) + t.size + 1, t.align), 3 * t.size, t.spare>>
\* An optional value of a type without spare values is larger; this is not
\* looked at for the other types.
---------------------------------------------------------------------------
(* Cells.  Two cells hold a value each (bytes as in memory).  ty: number   *)
(* types of 1, 2, 4, 8, 16 bytes (0..4 signed, 5..9 unsigned), 10 three    *)
(* bytes, 11 big-endian 32 bits.                                           *)
Width(ty) == IF ty = 10 THEN 3 ELSE IF ty = 11 THEN 4 ELSE <<1, 2, 4, 8, 16>>[(ty % 5) + 1]
Signed(ty) == ty < 5
Value(ty, m) == IF ty \in {10, 11} THEN m ELSE Rev(m)
CellObs(old, s) == old \o <<-1>> \o s
CellStart(in) == <<Zeros(Width(in.ty)), Zeros(Width(in.ty))>>
(* 0 new v, 1 set v, 2 replace by v, 3 take, 4 get, 5 unwrap, 6 write v by *)
(* pointer, 7 read by pointer, 8 compare, 9 copy to the other, 10 print,   *)
(* 11 convert from v, 12 default                                           *)
CellCall(in, st, op) ==
    LET s == st[op.s]
        put(old, v) == [st |-> [st EXCEPT ![op.s] = v], obs |-> CellObs(old, v)]
    IN CASE op.k \in {0, 1, 6, 11} -> put(<<>>, op.v)
         [] op.k = 2 -> put(s, op.v)
         [] op.k = 3 -> put(s, Zeros(Width(in.ty)))
         [] op.k \in {4, 5, 7} -> put(s, s)
         [] op.k = 8 -> [st |-> st, obs |-> <<CmpN(Value(in.ty, s), Value(in.ty, st[3 - op.s]), Signed(in.ty))>>]
         [] op.k = 9 -> [st |-> [st EXCEPT ![3 - op.s] = s], obs |-> CellObs(s, s)]
         [] op.k = 10 -> [st |-> st, obs |-> Text(Value(in.ty, s), Signed(in.ty), op.plus, op.zero, op.w)]
         [] op.k = 12 -> put(<<>>, Zeros(Width(in.ty)))
\* The same with values that notice being dropped: number n is dropped by
\* whoever gets hold of it last.  The cell holds cell; log lists the drops.
OwnerStart == [cell |-> 1, next |-> 2, log |-> <<>>]
OwnerCall(st, op) ==
    LET give == [cell |-> st.next, next |-> st.next + 1, log |-> Append(st.log, st.cell)]
        \* a default value is number 0
        none == [st EXCEPT !.cell = 0, !.log = Append(@, st.cell)]
        r == CASE op.k = 0 -> give      \* new one over the old one
               [] op.k = 1 -> give      \* set
               [] op.k = 2 -> give      \* replace; the caller drops the old one
               [] op.k = 3 -> none      \* take; likewise
               [] op.k = 5 -> give      \* unwrap, drop, new one
               [] op.k = 7 -> st        \* look by pointer
    IN [st |-> r, obs |-> <<r.cell, -1>> \o r.log]
---------------------------------------------------------------------------
(* Pointers.  A slot holds an address (eight bytes, most significant       *)
(* first).  Target sizes and alignments by number.                         *)
TargetAlign(t) == <<1, 2, 4, 8, 16, 2, 1>>[t + 1]
Num8(n) == [k \in 1..8 |-> IF k = 8 THEN n ELSE 0]
PtrStart == <<Num8(1), Num8(1)>>
(* 0 from address, 1 try_from address, 2 from const pointer, 3 from mut    *)
(* pointer (refused for null, slot kept), 4 new, 5 set, 6 replace,         *)
(* 7 dangling, 8 change target and back, 9 compare, 10 print, 11 copy,     *)
(* 12 convert through the native number, 13 from a reference to an object  *)
(* of content v, 14 the same, mutable, and write w through it              *)
PtrCall(in, st, op) ==
    LET s == st[op.s]
        put(first, v) == [st |-> [st EXCEPT ![op.s] = v], obs |-> first \o v]
    IN CASE op.k \in 0..3 -> IF IsZero(op.v) THEN put(<<0>>, s) ELSE put(<<1>>, op.v)
         [] op.k \in {4, 5} -> put(<<1>>, op.v)
         [] op.k = 6 -> put(s, op.v)
         [] op.k = 7 -> put(<<1>>, Num8(TargetAlign(in.target)))
         [] op.k \in {8, 12} -> put(<<1>>, s)
         [] op.k = 9 -> [st |-> st, obs |-> <<CmpU(s, st[3 - op.s])>>]
         [] op.k = 10 -> [st |-> st, obs |-> Text(s, FALSE, op.plus, op.zero, op.w)]
         [] op.k = 11 -> [st |-> [st EXCEPT ![3 - op.s] = s], obs |-> <<1>> \o s]
         [] op.k = 13 -> [st |-> st, obs |-> <<1>> \o op.c]
         [] op.k = 14 -> [st |-> st, obs |-> <<1>> \o op.c \o op.d]
---------------------------------------------------------------------------
Start(in) == CASE in.m = 0 -> 0 [] in.m = 1 -> CellStart(in) [] in.m = 2 -> OwnerStart [] in.m = 3 -> PtrStart
Call(in, st, op) == CASE in.m = 0 -> [st |-> st, obs |-> LayoutObs(TypeOf(op))]
                      [] in.m = 1 -> CellCall(in, st, op)
                      [] in.m = 2 -> OwnerCall(st, op)
                      [] in.m = 3 -> PtrCall(in, st, op)
=============================================================================
