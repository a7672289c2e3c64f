------------------------------- MODULE Words -------------------------------
(* Machine words as sequences of 16-bit limbs, most significant first:     *)
(* two limbs for 32 bits, four for 64 bits.                                *)
EXTENDS Integers, Sequences, Bitwise

Limb == 65536

\* Sum modulo the size of the word.
Add2(a, b) == LET l == a[2] + b[2]
                  h == a[1] + b[1] + (l \div Limb)
              IN <<h % Limb, l % Limb>>
Xor2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Not2(a)    == <<65535 - a[1], 65535 - a[2]>>

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
P(n) == Pow2[n + 1]

RotR2(a, n) == LET h == IF n >= 16 THEN a[2] ELSE a[1]
                   l == IF n >= 16 THEN a[1] ELSE a[2]
                   k == n % 16
               IN <<(h \div P(k)) + (l % P(k)) * P(16 - k), (l \div P(k)) + (h % P(k)) * P(16 - k)>>
ShR2(a, n)  == \* n < 16
    <<a[1] \div P(n), (a[2] \div P(n)) + (a[1] % P(n)) * P(16 - n)>>

Zero4 == <<0, 0, 0, 0>>
One4  == <<0, 0, 0, 1>>
Add4(a, b) == LET d == a[4] + b[4]
                  c == a[3] + b[3] + (d \div Limb)
                  e == a[2] + b[2] + (c \div Limb)
                  f == a[1] + b[1] + (e \div Limb)
              IN <<f % Limb, e % Limb, c % Limb, d % Limb>>
Xor4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

\* The limb n bits further up, counted from limb i; outside there is Fill.
ShR4(a, n) ==
    LET q == n \div 16
        k == n % 16
        at(i) == IF i >= 1 /\ i <= 4 THEN a[i] ELSE 0
        one(i) == (at(i - q) \div P(k)) + (at(i - q - 1) % P(k)) * P(16 - k)
    IN <<one(1), one(2), one(3), one(4)>>
ShL4(a, n) ==
    LET q == n \div 16
        k == n % 16
        at(i) == IF i >= 1 /\ i <= 4 THEN a[i] ELSE 0
        one(i) == (at(i + q) % P(16 - k)) * P(k) + (at(i + q + 1) \div P(16 - k))
    IN <<one(1), one(2), one(3), one(4)>>
RotL4(a, n) ==
    LET q == n \div 16
        k == n % 16
        at(i) == a[((i - 1) % 4) + 1]
        one(i) == (at(i + q) % P(16 - k)) * P(k) + (at(i + q + 1) \div P(16 - k))
    IN <<one(1), one(2), one(3), one(4)>>

\* Product modulo 2^64, over bytes (least significant first).
Bytes4(a) == <<a[4] % 256, a[4] \div 256, a[3] % 256, a[3] \div 256,
               a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256>>
Mul4(a, b) ==
    LET x == Bytes4(a)
        y == Bytes4(b)
        col1 == x[1]*y[1]
        col2 == x[1]*y[2] + x[2]*y[1]
        col3 == x[1]*y[3] + x[2]*y[2] + x[3]*y[1]
        col4 == x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]
        col5 == x[1]*y[5] + x[2]*y[4] + x[3]*y[3] + x[4]*y[2] + x[5]*y[1]
        col6 == x[1]*y[6] + x[2]*y[5] + x[3]*y[4] + x[4]*y[3] + x[5]*y[2] + x[6]*y[1]
        col7 == x[1]*y[7] + x[2]*y[6] + x[3]*y[5] + x[4]*y[4] + x[5]*y[3] + x[6]*y[2] + x[7]*y[1]
        col8 == x[1]*y[8] + x[2]*y[7] + x[3]*y[6] + x[4]*y[5] + x[5]*y[4] + x[6]*y[3] + x[7]*y[2] + x[8]*y[1]
        c1 == col1
        c2 == col2 + c1 \div 256
        c3 == col3 + c2 \div 256
        c4 == col4 + c3 \div 256
        c5 == col5 + c4 \div 256
        c6 == col6 + c5 \div 256
        c7 == col7 + c6 \div 256
        c8 == col8 + c7 \div 256
    IN <<(c8 % 256) * 256 + (c7 % 256), (c6 % 256) * 256 + (c5 % 256),
         (c4 % 256) * 256 + (c3 % 256), (c2 % 256) * 256 + (c1 % 256)>>

RECURSIVE Ones(_)
Ones(n) == IF n = 0 THEN 0 ELSE (n % 2) + Ones(n \div 2)
Ones4(a) == Ones(a[1]) + Ones(a[2]) + Ones(a[3]) + Ones(a[4])
Bit4(a, n) == (a[4 - (n \div 16)] \div P(n % 16)) % 2
=============================================================================
