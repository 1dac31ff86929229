------------------------------ MODULE SelfTest ------------------------------
(* Checks that the Java evaluation of the BigNat and Words operators agrees with their TLA+ definitions, and that the
   hash functions reproduce published test vectors. *)
EXTENDS Hashes, Randomization, TLC, FiniteSets

CONSTANT Samples

Edge == {0, 1, 127, 128, 254, 255}
RByte(x) == LET r == RandomElement(0..15) IN IF r < 6 THEN RandomElement(Edge) ELSE RandomElement(0..255)
RSeq(n) == FoldLeft(LAMBDA acc, i : Append(acc, RByte(i)), <<>>, Range1(n))
RNat(n) == PTrim(RSeq(RandomElement(0..n)))
RLimb(x) == LET r == RandomElement(0..7) IN IF r < 4 THEN RandomElement({0, 1, 32767, 32768, 65534, 65535}) ELSE RandomElement(0..65535)
RWord(k) == FoldLeft(LAMBDA acc, i : Append(acc, RLimb(i)), <<>>, Range1(k))

SameNat(p, q, o) ==
    /\ Assert(BAdd(p, q) = PAdd(p, q), <<"BAdd", p, q>>)
    /\ Assert(BCmp(p, q) = PCmp(p, q) /\ BCmp(p, p) = 0 /\ PCmp(q, q) = 0, <<"BCmp", p, q>>)
    /\ Assert(LET hi == IF PCmp(p, q) >= 0 THEN p ELSE q
                  lo == IF PCmp(p, q) >= 0 THEN q ELSE p
              IN BSub(hi, lo) = PSub(hi, lo) /\ PAdd(PSub(hi, lo), lo) = hi, <<"BSub", p, q>>)
    /\ Assert(BMul(p, q) = PMul(p, q), <<"BMul", p, q>>)
    /\ Assert(o # <<>> => /\ BDiv(p, o) = PDiv(p, o)
                          /\ BMod(p, o) = PMod(p, o)
                          /\ PAdd(PMul(PDiv(p, o), o), PMod(p, o)) = p
                          /\ PCmp(PMod(p, o), o) < 0, <<"BDiv", p, o>>)
    /\ Assert(o # <<>> => /\ BAddMod(p, q, o) = PAddMod(p, q, o)
                          /\ BSubMod(p, q, o) = PSubMod(p, q, o)
                          /\ PMod(PAdd(PSubMod(p, q, o), q), o) = PMod(p, o)
                          /\ BMulMod(p, q, o) = PMulMod(p, q, o), <<"Mod", p, q, o>>)
    /\ Assert(o # <<>> => LET inv == PInv(p, o)
                          IN BInv(p, o) = inv /\ (inv # <<>> => PMulMod(p, inv, o) = PMod(BOne, o)), <<"BInv", p, o>>)
    /\ Assert(\A i \in {0, 1, 7, 8, 9, 30, 63} : BBit(p, i) = PBit(p, i), <<"BBit", p>>)
    /\ Assert(\A i \in {0, 1, 255, 256, 65535, 2147483647} : BFromInt(i) = PFromInt(i), "BFromInt")
    /\ Assert(LET s == p \o <<0, 0>> IN BTrim(s) = PTrim(s) /\ FromBE(s) = PFromBE(s) /\ ToBE(PFromBE(s), 12) = PToBE(PFromBE(s), 12), "BE")

SameWord(c, d, k) ==
    /\ Assert(WAdd(c, d) = PWAdd(c, d), <<"WAdd", c, d>>)
    /\ Assert(WXor(c, d) = PWXor(c, d), <<"WXor", c, d>>)
    /\ Assert(WAnd(c, d) = PWAnd(c, d), <<"WAnd", c, d>>)
    /\ Assert(WOr(c, d) = PWOr(c, d), <<"WOr", c, d>>)
    /\ Assert(WNot(c) = PWNot(c), <<"WNot", c>>)
    /\ Assert(WRotr(c, k) = PWRotr(c, k), <<"WRotr", c, k>>)
    /\ Assert(WShr(c, k) = PWShr(c, k), <<"WShr", c, k>>)

ABC == <<97, 98, 99>>
Vectors ==
    /\ Assert(Sha256(<<>>) = HexBytes("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"), "sha256 empty")
    /\ Assert(Sha256(ABC) = HexBytes("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"), "sha256 abc")
    /\ Assert(Sha512(ABC) = HexBytes("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"), "sha512 abc")
    /\ Assert(Ripemd160(ABC) = HexBytes("8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"), "ripemd160 abc")
    /\ Assert(Ripemd160(<<>>) = HexBytes("9c1185a5c5e9fc54612808977ee8f548b2258d31"), "ripemd160 empty")
    /\ Assert(Keccak256(<<>>) = HexBytes("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"), "keccak empty")
    /\ Assert(Keccak256(ABC) = HexBytes("4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"), "keccak abc")
    \* RFC 4231 test case 2
    /\ Assert(HmacSha256(<<74,101,102,101>>, HexBytes("7768617420646f2079612077616e7420666f72206e6f7468696e673f"))
              = HexBytes("5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"), "hmac256")
    /\ Assert(HmacSha512(<<74,101,102,101>>, HexBytes("7768617420646f2079612077616e7420666f72206e6f7468696e673f"))
              = HexBytes("164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd610270cd7ea2505549758bf75c05a994a6d034f65f8f0e6fdcaeab1a34d4a6b4b636e070a38bce737"), "hmac512")
    /\ Assert(HexBytes("00017f80ff") = PHexBytes("00017f80ff") /\ PHexBytes("00017f80ff") = <<0, 1, 127, 128, 255>>, "hex")

VARIABLES n, a, b, m, w, x, r
vars == <<n, a, b, m, w, x, r>>
Init == n = 0 /\ Vectors /\ a = <<>> /\ b = <<>> /\ m = <<>> /\ w = <<0, 0>> /\ x = <<0, 0>> /\ r = 0
Next == /\ n < Samples
        /\ n' = n + 1
        /\ a' = RNat(9)
        /\ b' = RNat(9)
        /\ m' = RNat(6)
        /\ w' = RWord(IF n % 2 = 0 THEN 2 ELSE 4)
        /\ x' = RWord(IF n % 2 = 0 THEN 2 ELSE 4)
        /\ r' = RandomElement(0..31) * (IF n % 2 = 0 THEN 1 ELSE 2)
Spec == Init /\ [][Next]_vars
Agree == SameNat(a, b, m) /\ SameWord(w, x, r)
=============================================================================
