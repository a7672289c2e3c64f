-------------------------------- MODULE Rng --------------------------------
(***************************************************************************)
(* Random generators (lib/osi/src/rng.rs): SplitMix64 as in Java's         *)
(* SplittableRandom (Steele, Lea, Flood 2014), and xoshiro256++ (Blackman, *)
(* Vigna 2019).  Words are four 16-bit limbs.                              *)
(***************************************************************************)
EXTENDS Words, SequencesExt

Gamma == <<40503, 31161, 32586, 31765>>

MixA(v, sh, mul) == Mul4(Xor4(v, ShR4(v, sh)), mul)
\* Stafford variant 4, upper 32 bits.
Mix32(v) == LET a == MixA(MixA(v, 33, <<25257, 55789, 31127, 1525>>), 28, <<52004, 53413, 51340, 13747>>) IN <<a[1], a[2]>>
\* Stafford variant 13.
Mix64(v) == LET a == MixA(MixA(v, 30, <<48984, 18285, 7396, 58809>>), 27, <<38096, 18875, 4913, 4587>>) IN Xor4(a, ShR4(a, 31))
\* MurmurHash3 finalizer, made odd; repaired if too regular.
MixGamma(v) ==
    LET a == MixA(MixA(v, 33, <<65361, 45015, 60757, 36045>>), 33, <<50382, 47614, 6789, 60499>>)
        b == Xor4(a, ShR4(a, 33))
        c == <<b[1], b[2], b[3], b[4] | 1>>
    IN IF Ones4(Xor4(c, ShR4(c, 1))) < 24 THEN Xor4(c, <<43690, 43690, 43690, 43690>>) ELSE c

(* Generators: kind 1 SplitMix with the fixed gamma, 2 SplitMix with its   *)
(* own gamma, 3 xoshiro256++.                                              *)
Mix(s)     == [kind |-> 1, s |-> s, g |-> Gamma]
Split(s, g) == [kind |-> 2, s |-> s, g |-> g]
Step(r)    == [r EXCEPT !.s = Add4(@, r.g)]

\* Successor states of a SplitMix generator.
Next64(r)  == LET a == Step(r) IN [r |-> a, v |-> Mix64(a.s)]
Next32(r)  == LET a == Step(r) IN [r |-> a, v |-> Mix32(a.s)]
Fork(r)    == LET a == Step(r)
                  b == Step(a)
              IN [r |-> b, v |-> Split(Mix64(a.s), MixGamma(b.s))]
Four(r)    == LET a == Next64(r)
                  b == Next64(a.r)
                  c == Next64(b.r)
                  d == Next64(c.r)
              IN [r |-> d.r, v |-> <<a.v, b.v, c.v, d.v>>]

\* The all-zero seed would be a fixed point; the first values of
\* SplitMix64 from 0 take its place.
Xo(s) == [kind |-> 3, s |-> IF s = <<Zero4, Zero4, Zero4, Zero4>> THEN Four(Mix(Zero4)).v ELSE s]
XoStep(s) ==
    LET t == ShL4(s[2], 17)
        c == Xor4(s[3], s[1])
        d == Xor4(s[4], s[2])
    IN <<Xor4(s[1], d), Xor4(s[2], c), Xor4(c, t), RotL4(d, 45)>>
XoNext(r) == [r |-> [r EXCEPT !.s = XoStep(@)],
              v |-> Add4(RotL4(Add4(r.s[1], r.s[4]), 23), r.s[1])]
Jump128 == <<<<6158, 50899, 15613, 2746>>, <<54694, 4710, 61641, 14636>>, <<43352, 9752, 57407, 51626>>, <<14763, 56389, 10673, 26140>>>>
Jump192 == <<<<30433, 23870, 65277, 52159>>, <<50432, 20036, 7250, 12211>>, <<30577, 105, 34126, 57921>>, <<14608, 39856, 10955, 58933>>>>
XorS(a, b) == [i \in 1..4 |-> Xor4(a[i], b[i])]
XoJump(r, tab) ==
    LET one(a, n) ==
            [t |-> IF Bit4(tab[1 + (n \div 64)], n % 64) = 1 THEN XorS(a.t, a.s) ELSE a.t, s |-> XoStep(a.s)]
        e == FoldLeft(one, [t |-> <<Zero4, Zero4, Zero4, Zero4>>, s |-> r.s], [n \in 1..256 |-> n - 1])
    IN [r EXCEPT !.s = e.t]

(************************** calls *****************************************)
\* The state is a sequence of generators; g selects one.
\*  0 new SplitMix (fixed gamma) from seed   1 new SplitMix from seed
\*  2 new xoshiro from four words            3 draw 32 bits   4 draw 64 bits
\*  5 split off a new one                    6 widen fixed gamma to own gamma (new)
\*  7 seed a new xoshiro, advancing g        8 seed a new xoshiro from a copy of g
\*  9 jump 2^128    10 jump 2^192            11 is g equal to h (of one kind)
\*  12 copy g
Call(rs, op) ==
    LET r == rs[op.g]
        put(n) == [rs EXCEPT ![op.g] = n]
        new(l, n) == [st |-> Append(l, n), obs |-> <<0>>]
    IN CASE op.k = 0 -> new(rs, Mix(op.v))
         [] op.k = 1 -> new(rs, Split(op.v, Gamma))
         [] op.k = 2 -> new(rs, Xo(<<SubSeq(op.v, 1, 4), SubSeq(op.v, 5, 8), SubSeq(op.v, 9, 12), SubSeq(op.v, 13, 16)>>))
         [] op.k = 3 -> LET n == Next32(r) IN [st |-> put(n.r), obs |-> n.v]
         [] op.k = 4 -> LET n == IF r.kind = 3 THEN XoNext(r) ELSE Next64(r)
                        IN [st |-> put(n.r), obs |-> n.v]
         [] op.k = 5 -> LET n == Fork(r) IN new(put(n.r), n.v)
         [] op.k = 6 -> new(rs, Split(r.s, Gamma))
         [] op.k = 7 -> LET n == Four(r) IN new(put(n.r), Xo(n.v))
         [] op.k = 8 -> LET n == Four(r) IN new(rs, Xo(n.v))
         [] op.k = 9 -> [st |-> put(XoJump(r, Jump128)), obs |-> <<0>>]
         [] op.k = 10 -> [st |-> put(XoJump(r, Jump192)), obs |-> <<0>>]
         [] op.k = 11 -> [st |-> rs, obs |-> <<IF r = rs[op.h] THEN 1 ELSE 0>>]
         [] op.k = 12 -> new(rs, r)
=============================================================================
