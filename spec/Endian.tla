------------------------------- MODULE Endian -------------------------------
(***************************************************************************)
(* Endian-tagged numbers (lib/osi/src/ffi/endian.rs), plain or inside the  *)
(* fixed-layout containers that pass the byte order on.                    *)
(*                                                                         *)
(* Types: 0..5 signed of 1, 2, 4, 8, 16 bytes and of pointer size, 6..11   *)
(* the same unsigned, 12..23 the same without zero.  A slot is its native  *)
(* value, as bytes from the most significant one.                          *)
(***************************************************************************)
EXTENDS Num

Width(ty) == <<1, 2, 4, 8, 16, 8>>[(ty % 6) + 1]
Signed(ty) == (ty % 12) < 6
NonZero(ty) == ty >= 12
One(ty) == [k \in 1..Width(ty) |-> IF k = Width(ty) THEN 1 ELSE 0]

\* Bytes in memory: 0 big endian, 1 little endian, 2 the native type.
Stored(ord, v) == IF ord = 0 THEN v ELSE Rev(v)
FromStored(ord, m) == IF ord = 0 THEN m ELSE Rev(m)

Look(in, v) == Stored(in.ord, v) \o <<-1>> \o v \o <<-1>> \o Stored(in.ord, v)
Start(in) == <<One(in.ty), One(in.ty)>>

(* Calls on one of two slots: 0 make from native v, 1 make from raw bytes  *)
(* v, 2 compare with the other, 3 default, 4 print, 5 copy to the other.   *)
Call(in, st, op) ==
    LET put(v) == [st |-> [st EXCEPT ![op.s] = v], obs |-> Look(in, v)]
    IN CASE op.k = 0 -> put(op.v)
         [] op.k = 1 -> put(FromStored(in.ord, op.v))
         [] op.k = 2 -> [st |-> st, obs |-> <<CmpN(st[op.s], st[3 - op.s], Signed(in.ty))>>]
         [] op.k = 3 -> put(Zeros(Width(in.ty)))
         [] op.k = 4 -> [st |-> st, obs |-> Text(st[op.s], Signed(in.ty), op.plus, op.zero, op.w)]
         [] op.k = 5 -> [st |-> [st EXCEPT ![3 - op.s] = st[op.s]], obs |-> Look(in, st[op.s])]
=============================================================================
