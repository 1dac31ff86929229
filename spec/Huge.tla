-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* Digests of messages of up to 2^33 zero bytes, whose length does not fit *)
(* in TLC's integers (len is a decimal string).  ZeroBlocks(alg, n) is the *)
(* chaining value after n all-zero blocks: the n-fold iteration of the     *)
(* compression function.  Its Java evaluation is checked against that      *)
(* definition in HugeTest.tla.                                             *)
(***************************************************************************)
EXTENDS Hashes

RECURSIVE PDecNat(_)
PDecNat(s) == IF Len(s) = 0 THEN <<>>
              ELSE BAdd(BMul(PDecNat(SubSeq(s, 1, Len(s) - 1)), <<10>>), BFromInt(HexVal[SubSeq(s, Len(s), Len(s))]))

HugeBlock(alg) == CASE alg \in {"sha256", "sha256stream", "ripemd160"} -> 64 [] alg \in {"sha512", "sha512stream"} -> 128 [] alg = "keccak256" -> 136
HugeInit(alg) == CASE alg \in {"sha256", "sha256stream"} -> SHA256_H [] alg \in {"sha512", "sha512stream"} -> SHA512_H [] alg = "ripemd160" -> RMD_H
                   [] alg = "keccak256" -> KeccakZero
HugeStep(alg, st, bytes) == CASE alg \in {"sha256", "sha256stream"} -> Sha256Blocks(st, bytes) [] alg \in {"sha512", "sha512stream"} -> Sha512Blocks(st, bytes)
                   [] alg = "ripemd160" -> Rmd160Blocks(st, bytes) [] alg = "keccak256" -> KeccakBlocks(st, bytes)
RECURSIVE PZeroBlocks(_, _)
PZeroBlocks(alg, n) == IF n = <<>> THEN HugeInit(alg) ELSE HugeStep(alg, PZeroBlocks(alg, BSub(n, BOne)), Zeros(HugeBlock(alg)))
\* The same from the tables of HashConst; PIterZero is what the Java class HugeOv evaluates as IterZero.
HugeKind(alg) == CASE alg \in {"sha256", "sha256stream"} -> "sha256" [] alg \in {"sha512", "sha512stream"} -> "sha512" [] OTHER -> alg
HugeTables(kind) == CASE kind = "sha256" -> <<SHA256_H, SHA256_K>>
                      [] kind = "sha512" -> <<SHA512_H, SHA512_K>>
                      [] kind = "ripemd160" -> <<RMD_H, RMD_KL, RMD_KR, RMD_SL, RMD_SR>>
                      [] kind = "keccak256" -> <<KeccakZero, KECCAK_RC, KECCAK_ROT>>
IterZero(kind, tables, n) == PZeroBlocks(kind, n)
ZeroBlocks(alg, n) == IterZero(HugeKind(alg), HugeTables(HugeKind(alg)), n)

HugeBits(n) == BMul(n, <<8>>)
HugeDigest(alg, lenText) ==
    LET n == PDecNat(lenText)
        b == HugeBlock(alg)
        full == BDiv(n, BFromInt(b))
        restNat == BMod(n, BFromInt(b))
        rest == IF restNat = <<>> THEN 0 ELSE restNat[1]
        st == ZeroBlocks(alg, full)
        tail == Zeros(rest) \o
            (CASE alg \in {"sha256", "sha256stream"} -> <<128>> \o Zeros(PadZeros(rest, 8, 64)) \o ToBE(HugeBits(n), 8)
               [] alg = "ripemd160" -> <<128>> \o Zeros(PadZeros(rest, 8, 64)) \o Reverse(ToBE(HugeBits(n), 8))
               [] alg \in {"sha512", "sha512stream"} -> <<128>> \o Zeros(PadZeros(rest, 16, 128)) \o ToBE(HugeBits(n), 16)
               [] alg = "keccak256" -> KeccakPad(rest))
        fin == HugeStep(alg, st, tail)
    IN CASE alg \in {"sha256", "sha256stream", "sha512", "sha512stream"} -> WordsToBE(fin)
         [] alg = "ripemd160" -> WordsToLE(fin)
         [] alg = "keccak256" -> SubSeq(WordsToLE(SubSeq(fin, 1, 4)), 1, 32)
=============================================================================
