------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* SHA-256 (FIPS 180-4), HMAC (RFC 2104) over it, and the streaming        *)
(* engines (lib/osi/src/hash, hmac.rs).  An engine's state is what was     *)
(* pushed since the last start.                                            *)
(***************************************************************************)
EXTENDS Words, SequencesExt

\* Fractional parts of the cube and square roots of the first primes.
K == <<
    <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>,
    <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>,
    <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
    <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>,
    <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>,
    <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
    <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>,
    <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>,
    <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
    <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>,
    <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>,
    <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
    <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>,
    <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
    <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
    <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>> >>
H0 == <<
    <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
    <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>> >>

BSig0(x) == Xor2(Xor2(RotR2(x, 2), RotR2(x, 13)), RotR2(x, 22))
BSig1(x) == Xor2(Xor2(RotR2(x, 6), RotR2(x, 11)), RotR2(x, 25))
SSig0(x) == Xor2(Xor2(RotR2(x, 7), RotR2(x, 18)), ShR2(x, 3))
SSig1(x) == Xor2(Xor2(RotR2(x, 17), RotR2(x, 19)), ShR2(x, 10))
Ch(x, y, z)  == Xor2(And2(x, y), And2(Not2(x), z))
Maj(x, y, z) == Xor2(Xor2(And2(x, y), And2(x, z)), And2(y, z))

\* Message schedule of the block at bytes from+1 .. from+64.
Schedule(m, from) ==
    LET word(i) == <<m[from + 4*i - 3] * 256 + m[from + 4*i - 2], m[from + 4*i - 1] * 256 + m[from + 4*i]>>
        next(w, i) == Append(w, Add2(Add2(SSig1(w[i - 2]), w[i - 7]), Add2(SSig0(w[i - 15]), w[i - 16])))
    IN FoldLeft(next, [i \in 1..16 |-> word(i)], [i \in 1..48 |-> i + 16])

Compress(h, m, from) ==
    LET w == Schedule(m, from)
        step(s, i) ==
            LET t1 == Add2(Add2(Add2(s[8], BSig1(s[5])), Add2(Ch(s[5], s[6], s[7]), K[i])), w[i])
                t2 == Add2(BSig0(s[1]), Maj(s[1], s[2], s[3]))
            IN <<Add2(t1, t2), s[1], s[2], s[3], Add2(s[4], t1), s[5], s[6], s[7]>>
        e == FoldLeft(step, h, [i \in 1..64 |-> i])
    IN [i \in 1..8 |-> Add2(h[i], e[i])]

Zeros(n) == [i \in 1..n |-> 0]
(* A message is [base, tail]: base 0 stands for nothing, 1 for 2^29 and 2  *)
(* for 2^32 zero bytes in front of the tail.  Base gives the chaining      *)
(* value behind those and the upper word of their length in bits.          *)
Base == <<
    [h |-> H0, bits |-> 0],
    [h |-> <<<<49556, 21270>>, <<3792, 15888>>, <<19984, 25833>>, <<12171, 1618>>, <<58663, 29869>>, <<1630, 41513>>, <<51651, 49734>>, <<3596, 49266>>>>, bits |-> 1],
    [h |-> <<<<36862, 18664>>, <<65128, 5525>>, <<1748, 39326>>, <<58033, 44108>>, <<15963, 38204>>, <<54776, 48021>>, <<59400, 11598>>, <<36341, 59802>>>>, bits |-> 8] >>

\* A one bit, zeros, and the length in bits, up to a whole number of blocks.
Padding(n, upper) ==
    LET z == (119 - (n % 64)) % 64
        l == n * 8
    IN <<128>> \o Zeros(z) \o <<0, 0, 0, upper, l \div 16777216, (l \div 65536) % 256, (l \div 256) % 256, l % 256>>

ShaOf(msg) ==
    LET base == Base[msg.base + 1]
        m == msg.tail \o Padding(Len(msg.tail), base.bits)
        one(h, b) == Compress(h, m, 64 * (b - 1))
        h == FoldLeft(one, base.h, [b \in 1..(Len(m) \div 64) |-> b])
    IN FlattenSeq([i \in 1..8 |-> <<h[i][1] \div 256, h[i][1] % 256, h[i][2] \div 256, h[i][2] % 256>>])
Empty == [base |-> 0, tail |-> <<>>]
Sha(s) == ShaOf([base |-> 0, tail |-> s])

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(s) == FlattenSeq([i \in 1..Len(s) |-> <<HexDigit(s[i] \div 16), HexDigit(s[i] % 16)>>])

(************************** HMAC ******************************************)
Key(k) == LET s == IF Len(k) > 64 THEN Sha(k) ELSE k IN s \o Zeros(64 - Len(s))
Mask(k, v) == [i \in 1..Len(k) |-> k[i] ^^ v]
Hmac(key, msg) == LET k == Key(key) IN Sha(Mask(k, 92) \o Sha(Mask(k, 54) \o msg))

(************************** engines ***************************************)
\* Calls: 0 push bytes v, 1 push n zeros, 2 finish, 3 reset, 4 digest of v
\* in one go, 5 go on with a copy, 6 push the zeros of base n (only as the
\* first call of a message).  Outcome: is the engine as new, digest.
B(c) == IF c THEN 1 ELSE 0
More(msg, s) == [msg EXCEPT !.tail = @ \o s]
HashCall(msg, op) ==
    CASE op.k = 0 -> [st |-> More(msg, op.v), obs |-> <<B(More(msg, op.v) = Empty)>>]
      [] op.k = 1 -> [st |-> More(msg, Zeros(op.n)), obs |-> <<B(msg = Empty /\ op.n = 0)>>]
      [] op.k = 2 -> LET d == ShaOf(msg) IN [st |-> Empty, obs |-> <<1>> \o d \o Hex(d)]
      [] op.k = 3 -> [st |-> Empty, obs |-> <<1>>]
      [] op.k = 4 -> LET d == Sha(op.v) IN [st |-> msg, obs |-> <<B(msg = Empty)>> \o d]
      [] op.k = 5 -> [st |-> msg, obs |-> <<B(msg = Empty)>>]
      [] op.k = 6 /\ msg = Empty -> [st |-> [base |-> op.n, tail |-> <<>>], obs |-> <<0>>]

(* HMAC engines.  Whether the key's mask was fed already is not            *)
(* observable: an engine is its key and what was pushed.                   *)
HmacCall(key, msg, op) ==
    CASE op.k = 0 -> [st |-> msg \o op.v, obs |-> <<0>>]
      [] op.k = 1 -> [st |-> msg \o Zeros(op.n), obs |-> <<0>>]
      [] op.k = 2 -> [st |-> <<>>, obs |-> <<1>> \o Hmac(key, msg)]
      [] op.k = 3 -> [st |-> <<>>, obs |-> <<0>>]
=============================================================================
