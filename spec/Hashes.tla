------------------------------- MODULE Hashes -------------------------------
(***************************************************************************)
(* SHA-256, SHA-512, RIPEMD-160, Keccak-256 and HMAC as functions from     *)
(* byte sequences to byte sequences (FIPS 180-4, FIPS 198-1, the RIPEMD-160*)
(* and Keccak submission documents).                                       *)
(***************************************************************************)
EXTENDS Words, BigNat, HashConst

Zeros(n) == [i \in 1..n |-> 0]

\* The zero padding count so that len + 1 + z + lenBytes is a multiple of the block size.
PadZeros(len, lenBytes, block) == (block - ((len + 1 + lenBytes) % block)) % block

\* Message length in bits, as a natural number.
BitLen(len) == BMul(BFromInt(len), <<8>>)

----------------------------------------------------------------------------
(* SHA-256 *)
S256_0(x) == WXor3(WRotr(x, 2), WRotr(x, 13), WRotr(x, 22))
S256_1(x) == WXor3(WRotr(x, 6), WRotr(x, 11), WRotr(x, 25))
s256_0(x) == WXor3(WRotr(x, 7), WRotr(x, 18), WShr(x, 3))
s256_1(x) == WXor3(WRotr(x, 17), WRotr(x, 19), WShr(x, 10))
Ch(x, y, z)  == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor3(WAnd(x, y), WAnd(x, z), WAnd(y, z))

Sha256Schedule(bytes, pos) ==
    LET first == [i \in 1..16 |-> WFromBE(bytes, pos + 4*(i-1), 2)]
    IN FoldLeft(LAMBDA w, i : Append(w, WAdd4(s256_1(w[i-2]), w[i-7], s256_0(w[i-15]), w[i-16])),
                SubSeq(first, 1, 16), [i \in 1..48 |-> i + 16])

Sha256Round(s, k, w) ==
    LET t1 == WAdd5(s[8], S256_1(s[5]), Ch(s[5], s[6], s[7]), k, w)
        t2 == WAdd(S256_0(s[1]), Maj(s[1], s[2], s[3]))
    IN <<WAdd(t1, t2), s[1], s[2], s[3], WAdd(s[4], t1), s[5], s[6], s[7]>>

\* The compression function, on the block that starts at bytes[pos].
Sha256Compress(st, bytes, pos) ==
    LET w == Sha256Schedule(bytes, pos)
        r == FoldLeft(LAMBDA s, i : Sha256Round(s, SHA256_K[i], w[i]), st, Range1(64))
    IN <<WAdd(st[1], r[1]), WAdd(st[2], r[2]), WAdd(st[3], r[3]), WAdd(st[4], r[4]),
         WAdd(st[5], r[5]), WAdd(st[6], r[6]), WAdd(st[7], r[7]), WAdd(st[8], r[8])>>

Sha256Blocks(st, bytes) ==
    FoldLeft(LAMBDA s, b : Sha256Compress(s, bytes, 64*(b-1) + 1), st, Range1(Len(bytes) \div 64))

Sha256Pad(len) == <<128>> \o Zeros(PadZeros(len, 8, 64)) \o ToBE(BitLen(len), 8)
WordsToBE(st) == FoldLeft(LAMBDA acc, w : acc \o WToBE(w), <<>>, st)
WordsToLE(st) == FoldLeft(LAMBDA acc, w : acc \o WToLE(w), <<>>, st)

Sha256(msg) == WordsToBE(Sha256Blocks(SHA256_H, msg \o Sha256Pad(Len(msg))))
Sha256d(msg) == Sha256(Sha256(msg))

----------------------------------------------------------------------------
(* SHA-512 *)
S512_0(x) == WXor3(WRotr(x, 28), WRotr(x, 34), WRotr(x, 39))
S512_1(x) == WXor3(WRotr(x, 14), WRotr(x, 18), WRotr(x, 41))
s512_0(x) == WXor3(WRotr(x, 1), WRotr(x, 8), WShr(x, 7))
s512_1(x) == WXor3(WRotr(x, 19), WRotr(x, 61), WShr(x, 6))

Sha512Schedule(bytes, pos) ==
    LET first == [i \in 1..16 |-> WFromBE(bytes, pos + 8*(i-1), 4)]
    IN FoldLeft(LAMBDA w, i : Append(w, WAdd4(s512_1(w[i-2]), w[i-7], s512_0(w[i-15]), w[i-16])),
                SubSeq(first, 1, 16), [i \in 1..64 |-> i + 16])

Sha512Round(s, k, w) ==
    LET t1 == WAdd5(s[8], S512_1(s[5]), Ch(s[5], s[6], s[7]), k, w)
        t2 == WAdd(S512_0(s[1]), Maj(s[1], s[2], s[3]))
    IN <<WAdd(t1, t2), s[1], s[2], s[3], WAdd(s[4], t1), s[5], s[6], s[7]>>

Sha512Compress(st, bytes, pos) ==
    LET w == Sha512Schedule(bytes, pos)
        r == FoldLeft(LAMBDA s, i : Sha512Round(s, SHA512_K[i], w[i]), st, Range1(80))
    IN <<WAdd(st[1], r[1]), WAdd(st[2], r[2]), WAdd(st[3], r[3]), WAdd(st[4], r[4]),
         WAdd(st[5], r[5]), WAdd(st[6], r[6]), WAdd(st[7], r[7]), WAdd(st[8], r[8])>>

Sha512Blocks(st, bytes) ==
    FoldLeft(LAMBDA s, b : Sha512Compress(s, bytes, 128*(b-1) + 1), st, Range1(Len(bytes) \div 128))
Sha512Pad(len) == <<128>> \o Zeros(PadZeros(len, 16, 128)) \o ToBE(BitLen(len), 16)
Sha512(msg) == WordsToBE(Sha512Blocks(SHA512_H, msg \o Sha512Pad(Len(msg))))

----------------------------------------------------------------------------
(* HMAC *)
HmacPadKey(H(_), block, key) == LET k == IF Len(key) > block THEN H(key) ELSE key
                                IN k \o Zeros(block - Len(k))
XorByte(s, b) == [i \in 1..Len(s) |-> s[i] ^^ b]
Hmac(H(_), block, key, msg) ==
    LET k == HmacPadKey(H, block, key)
    IN H(XorByte(k, 92) \o H(XorByte(k, 54) \o msg))
HmacSha256(key, msg) == Hmac(Sha256, 64, key, msg)
HmacSha512(key, msg) == Hmac(Sha512, 128, key, msg)

----------------------------------------------------------------------------
(* RIPEMD-160 *)
RmdF(j, x, y, z) ==
    CASE j = 0 -> WXor3(x, y, z)
      [] j = 1 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
      [] j = 2 -> WXor(WOr(x, WNot(y)), z)
      [] j = 3 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
      [] j = 4 -> WXor(x, WOr(y, WNot(z)))

\* One step of one line: f number j, word m, constant k, rotation s.
RmdStep(s, j, m, k, rot) ==
    LET t == WAdd(WRotl(WAdd4(s[1], RmdF(j, s[2], s[3], s[4]), m, k), rot), s[5])
    IN <<s[5], t, s[2], WRotl(s[3], 10), s[4]>>

Rmd160Compress(st, bytes, pos) ==
    LET m == SubSeq([i \in 1..16 |-> WFromLE(bytes, pos + 4*(i-1), 2)], 1, 16)
        l == FoldLeft(LAMBDA s, i : RmdStep(s, (i-1) \div 16, m[RMD_RL[i] + 1], RMD_KL[(i-1) \div 16 + 1], RMD_SL[i]),
                      st, Range1(80))
        r == FoldLeft(LAMBDA s, i : RmdStep(s, 4 - ((i-1) \div 16), m[RMD_RR[i] + 1], RMD_KR[(i-1) \div 16 + 1], RMD_SR[i]),
                      st, Range1(80))
    IN <<WAdd3(st[2], l[3], r[4]), WAdd3(st[3], l[4], r[5]), WAdd3(st[4], l[5], r[1]),
         WAdd3(st[5], l[1], r[2]), WAdd3(st[1], l[2], r[3])>>

Rmd160Blocks(st, bytes) ==
    FoldLeft(LAMBDA s, b : Rmd160Compress(s, bytes, 64*(b-1) + 1), st, Range1(Len(bytes) \div 64))
Rmd160Pad(len) == <<128>> \o Zeros(PadZeros(len, 8, 64)) \o Reverse(ToBE(BitLen(len), 8))
Ripemd160(msg) == WordsToLE(Rmd160Blocks(RMD_H, msg \o Rmd160Pad(Len(msg))))
Hash160(msg) == Ripemd160(Sha256(msg))

----------------------------------------------------------------------------
(* Keccak-256 (original padding 0x01, rate 136 bytes).  Lane (x, y) is a[5*y + x + 1]. *)
Lane(a, x, y) == a[5 * (y % 5) + (x % 5) + 1]
KeccakTheta(a) ==
    LET col(x) == WXor3(Lane(a, x, 0), Lane(a, x, 1), WXor3(Lane(a, x, 2), Lane(a, x, 3), Lane(a, x, 4)))
        c == <<col(0), col(1), col(2), col(3), col(4)>>
        d(x) == WXor(c[((x + 4) % 5) + 1], WRotl(c[((x + 1) % 5) + 1], 1))
        dd == <<d(0), d(1), d(2), d(3), d(4)>>
    IN FoldLeft(LAMBDA acc, i : Append(acc, WXor(a[i], dd[((i-1) % 5) + 1])), <<>>, Range1(25))
\* rho and pi: lane (x, y) moves to (y, 2x + 3y), so lane (X, Y) comes from x = X + 3Y, y = X.
KeccakRhoPi(a) ==
    FoldLeft(LAMBDA acc, i : LET X == (i-1) % 5
                                 Y == (i-1) \div 5
                                 src == 5 * X + ((X + 3 * Y) % 5) + 1
                             IN Append(acc, IF KECCAK_ROT[src] = 0 THEN a[src] ELSE WRotl(a[src], KECCAK_ROT[src])),
             <<>>, Range1(25))
KeccakChi(a) ==
    FoldLeft(LAMBDA acc, i : LET X == (i-1) % 5
                                 Y == (i-1) \div 5
                             IN Append(acc, WXor(a[i], WAnd(WNot(Lane(a, X + 1, Y)), Lane(a, X + 2, Y)))),
             <<>>, Range1(25))
KeccakRound(a, rc) == LET b == KeccakChi(KeccakRhoPi(KeccakTheta(a))) IN [b EXCEPT ![1] = WXor(b[1], rc)]
KeccakF(a) == FoldLeft(LAMBDA s, i : KeccakRound(s, KECCAK_RC[i]), a, Range1(24))
KeccakZero == [i \in 1..25 |-> WZero(4)]
KeccakAbsorb(st, bytes, pos) ==
    KeccakF(FoldLeft(LAMBDA acc, i : Append(acc, IF i <= 17 THEN WXor(st[i], WFromLE(bytes, pos + 8*(i-1), 4)) ELSE st[i]),
                     <<>>, Range1(25)))
KeccakBlocks(st, bytes) ==
    FoldLeft(LAMBDA s, b : KeccakAbsorb(s, bytes, 136*(b-1) + 1), st, Range1(Len(bytes) \div 136))
KeccakPad(len) == LET n == 136 - (len % 136)
                  IN IF n = 1 THEN <<129>> ELSE <<1>> \o Zeros(n - 2) \o <<128>>
Keccak256(msg) == SubSeq(WordsToLE(SubSeq(KeccakBlocks(KeccakZero, msg \o KeccakPad(Len(msg))), 1, 4)), 1, 32)
=============================================================================
