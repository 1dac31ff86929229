---------------------------- MODULE BitcoinCrypto ----------------------------
(***************************************************************************)
(* The library as a state machine: one action per public call.  The state  *)
(* is what a caller can observe between calls; every action says what the  *)
(* call returns and leaves every other object alone, so a call that        *)
(* touches something it should not is no step of this machine.             *)
(*                                                                         *)
(*   u    registers holding unsigned 256-bit integers                      *)
(*   f    registers holding field elements (kept below the prime)          *)
(*   p    registers holding curve points as projective triples             *)
(*   h    hasher objects: handle -> [alg, msg, live]                       *)
(*   d    32-byte hash values: handle -> bytes                             *)
(*   out  output parameters of the codecs and of ECDSA signing             *)
(*   w    nodes of extended-private-key wallets                            *)
(*   dec  values that decoding calls returned (Java): last result          *)
(*   leak observation classes of the constant-time calls                   *)
(***************************************************************************)
EXTENDS Bip32, Bech32Spec, FiniteSets

VARIABLES u, f, p, h, d, out, w, leak

arithVars == <<u, f, p>>
allVars   == <<u, f, p, h, d, out, w, leak>>

Bit == {0, 1}
IsU256(x) == BLt(x, Two256)
B2I(b) == IF b THEN 1 ELSE 0

----------------------------------------------------------------------------
(* Unsigned 256-bit integers.  Register z receives the result. *)

UUnchanged == UNCHANGED <<f, p, h, d, out, w, leak>>
OnlyU(z, v) == u' = [u EXCEPT ![z] = v] /\ UUnchanged

USet(z, v) == IsU256(v) /\ OnlyU(z, v)
UCopy(z, x) == OnlyU(z, u[x])

SumOf(x, y, en) == IF en = 1 THEN BAdd(u[x], u[y]) ELSE u[x]
UAdd(z, x, y, en, ret) ==
    /\ en \in Bit
    /\ LET s == SumOf(x, y, en) IN ret = B2I(BLe(Two256, s)) /\ OnlyU(z, BMod(s, Two256))
USub(z, x, y, en, ret) ==
    /\ en \in Bit
    /\ LET sub == IF en = 1 THEN u[y] ELSE BZero
       IN ret = B2I(BLt(u[x], sub)) /\ OnlyU(z, BSubMod(u[x], sub, Two256))
UShl1(z, x, ret) == ret = BBit(u[x], 255) /\ OnlyU(z, BMod(BMul(u[x], <<2>>), Two256))
UShr1(z, x, en) == en \in Bit /\ OnlyU(z, IF en = 1 THEN BDiv(u[x], <<2>>) ELSE u[x])

\* The modulus is odd, above 1 and coprime to the value, or the value is zero.
CanInvert(x, m) == BLt(BOne, m) /\ BBit(m, 0) = 1 /\ BLt(x, m) /\ (x = BZero \/ BInv(x, m) # BZero)
UInv(z, x, m) == CanInvert(u[x], u[m]) /\ OnlyU(z, BInv(u[x], u[m]))

UReplace(z, y, en) == en \in Bit /\ OnlyU(z, IF en = 1 THEN u[y] ELSE u[z])
USwap(x, y, en) ==
    /\ en \in Bit
    /\ u' = IF en = 1 THEN [u EXCEPT ![x] = u[y], ![y] = u[x]] ELSE u
    /\ UUnchanged
\* The six relations at once: <<==, !=, <, <=, >, >=>>
Relations(a, b) == LET c == BCmp(a, b) IN <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>>
UCompare(x, y, ret) == ret = Relations(u[x], u[y]) /\ UNCHANGED allVars
UToBytes(x, ret) == ret = ToBE(u[x], 32) /\ UNCHANGED allVars
UFromBytes(z, bytes) == Len(bytes) = 32 /\ OnlyU(z, FromBE(bytes))

HexDigitVal(c) == IF 48 <= c /\ c <= 57 THEN c - 48 ELSE IF 97 <= c /\ c <= 102 THEN c - 87 ELSE IF 65 <= c /\ c <= 70 THEN c - 55 ELSE -1
IsHexText(t) == \A i \in 1..Len(t) : HexDigitVal(t[i]) >= 0
HexTextBytes(t) == [i \in 1..(Len(t) \div 2) |-> HexDigitVal(t[2*i - 1]) * 16 + HexDigitVal(t[2*i])]
HexLower(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexTextOf(bytes) == [i \in 1..(2 * Len(bytes)) |-> LET b == bytes[(i + 1) \div 2]
                                                  IN HexLower(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
UFromHex(z, text) == Len(text) = 64 /\ IsHexText(text) /\ OnlyU(z, FromBE(HexTextBytes(text)))
(* Java refuses arguments outside of the documented domain, and then leaves everything as it was. *)
Refused(ret) == ret = "IllegalArgumentException" /\ UNCHANGED allVars
JUInv(z, x, m, ret) == IF CanInvert(u[x], u[m]) THEN ret = "ok" /\ UInv(z, x, m) ELSE Refused(ret)
JUFromHex(z, text, ret) == IF Len(text) = 64 /\ IsHexText(text) THEN ret = "ok" /\ UFromHex(z, text) ELSE Refused(ret)
JUFromBytes(z, bytes, ret) == IF Len(bytes) = 32 THEN ret = "ok" /\ UFromBytes(z, bytes) ELSE Refused(ret)
UToHex(x, ret) == ret = HexTextOf(ToBE(u[x], 32)) /\ UNCHANGED allVars

----------------------------------------------------------------------------
(* Field elements *)

OnlyF(z, v) == f' = [f EXCEPT ![z] = v] /\ UNCHANGED <<u, p, h, d, out, w, leak>>

FSet(z, v) == IsField(v) /\ OnlyF(z, v)
FFromU(z, x) == OnlyF(z, BMod(u[x], FieldP))
UFromF(z, x) == OnlyU(z, f[x])
FAddA(z, x, y) == OnlyF(z, FAdd(f[x], f[y]))
FSubA(z, x, y) == OnlyF(z, FSub(f[x], f[y]))
FDblA(z, x) == OnlyF(z, FAdd(f[x], f[x]))
FSqrA(z, x) == OnlyF(z, FSqr(f[x]))
FMulA(z, x, y) == OnlyF(z, FMul(f[x], f[y]))
FInvA(z, x) == OnlyF(z, FInv(f[x]))
FReplace(z, y, en) == en \in Bit /\ OnlyF(z, IF en = 1 THEN f[y] ELSE f[z])
FCompare(x, y, ret) == ret = Relations(f[x], f[y]) /\ UNCHANGED allVars
FToBytes(x, ret) == ret = ToBE(f[x], 32) /\ UNCHANGED allVars
FFromHex(z, text) == Len(text) = 64 /\ IsHexText(text) /\ IsField(FromBE(HexTextBytes(text))) /\ OnlyF(z, FromBE(HexTextBytes(text)))

----------------------------------------------------------------------------
(* Curve points.  The library may represent a result by any triple of the   *)
(* group element; t is the one it chose.                                    *)

OnlyP(z, t) == p' = [p EXCEPT ![z] = t] /\ UNCHANGED <<u, f, h, d, out, w, leak>>

PSet(z, t) == IsTriple(t) /\ OnlyP(z, t)
PAdd_(z, x, t) == IsPoint(p[z]) /\ IsPoint(p[x]) /\ Represents(t, GAdd(ToGroup(p[z]), ToGroup(p[x]))) /\ OnlyP(z, t)
PTwice(z, t) == IsPoint(p[z]) /\ Represents(t, GDouble(ToGroup(p[z]))) /\ OnlyP(z, t)
PMul_(z, x, t) == IsPoint(p[z]) /\ Represents(t, GMul(u[x], ToGroup(p[z]))) /\ OnlyP(z, t)
PNormalize(z) == IsPoint(p[z]) /\ OnlyP(z, NormalTriple(ToGroup(p[z])))
PReplace(z, x, en) == en \in Bit /\ OnlyP(z, IF en = 1 THEN p[x] ELSE p[z])
\* Normalized triples only; need not be on the curve.
POnCurve(x, ret) == IsNormal(p[x]) /\ ret = B2I(p[x][3] = BOne /\ AffineOnCurve(p[x][1], p[x][2])) /\ UNCHANGED allVars
PIsZero(x, ret) == ret = B2I(IsZeroTriple(p[x])) /\ UNCHANGED allVars
PEqual(x, y, ret) == ret = <<p[x] = p[y], p[x] # p[y]>> /\ UNCHANGED allVars
PCompress(x, ret) == p[x][3] = BOne /\ ret = Compressed(p[x]) /\ UNCHANGED allVars
PPublic(z, x) == InScalarRange(u[x]) /\ OnlyP(z, NormalTriple(GMul(u[x], BaseG)))
PBase(z) == OnlyP(z, NormalTriple(BaseG))
PZero(z) == OnlyP(z, NormalTriple(Identity))
PFromHex(z, tx, ty) ==
    LET x == FromBE(HexTextBytes(tx))  y == FromBE(HexTextBytes(ty))
    IN /\ \A t \in {tx, ty} : Len(t) = 64 /\ IsHexText(t)
       /\ IsField(x) /\ IsField(y)
       /\ OnlyP(z, <<x, y, BOne>>)
PFromXY(z, x, y) == OnlyP(z, <<f[x], f[y], BOne>>)

----------------------------------------------------------------------------
(* ECDSA.  out.r and out.s are the signature's output parameters. *)

OnlyOut(o) == out' = o /\ UNCHANGED <<u, f, p, h, d, w, leak>>
SignResult(res, ret) ==
    /\ ret = B2I(res.ok)
    /\ OnlyOut(IF res.ok THEN [out EXCEPT !.r = res.r, !.s = res.s] ELSE out)
ESign(priv, hash, nonce, ret) == InScalarRange(priv) /\ SignResult(Sign(priv, FromBE(hash), nonce), ret)
ESignHmac(priv, hash, ret) == InScalarRange(priv) /\ SignResult(Sign(priv, FromBE(hash), HmacNonce(priv, hash)), ret)
\* q: any triple of field elements
EVerify(q, hash, r, s, ret) == IsTriple(q) /\ ret = B2I(Verify(q, FromBE(hash), r, s)) /\ UNCHANGED allVars
\* Verifies what the last successful signing produced.
EVerifyOwn(priv, hash, ret) ==
    /\ InScalarRange(priv)
    /\ ret = B2I(Verify(PubTriple(priv), FromBE(hash), out.r, out.s))
    /\ UNCHANGED allVars

----------------------------------------------------------------------------
(* Hash functions *)

Digest(alg, msg) == CASE alg = "sha256" -> Sha256(msg)
                      [] alg = "sha256d" -> Sha256d(msg)
                      [] alg = "sha512" -> Sha512(msg)
                      [] alg = "ripemd160" -> Ripemd160(msg)
                      [] alg = "keccak256" -> Keccak256(msg)
HashOf(alg, msg, ret) == ret = Digest(alg, msg) /\ UNCHANGED allVars
MacOf(alg, key, msg, ret) ==
    /\ ret = (CASE alg = "sha256" -> HmacSha256(key, msg) [] alg = "sha512" -> HmacSha512(key, msg))
    /\ UNCHANGED allVars
\* The public SHA-256 compression function; state words as bytes, big endian.
Compress256(state, block, ret) ==
    /\ ret = WordsToBE(Sha256Compress([i \in 1..8 |-> WFromBE(state, 4*(i-1) + 1, 2)], block, 1))
    /\ UNCHANGED allVars

OnlyH(k, v) == h' = [h EXCEPT ![k] = v] /\ UNCHANGED <<u, f, p, d, out, w, leak>>
NoHasher == [alg |-> "none", msg |-> <<>>, live |-> FALSE]
HNew(k, alg) == OnlyH(k, [alg |-> alg, msg |-> <<>>, live |-> TRUE])
HAppend(k, bytes) == h[k].live /\ OnlyH(k, [h[k] EXCEPT !.msg = @ \o bytes])
HCopy(k, j) == h[j].live /\ OnlyH(k, h[j])
HFinish(k, ret) == h[k].live /\ ret = Digest(h[k].alg, h[k].msg) /\ OnlyH(k, NoHasher)

----------------------------------------------------------------------------
(* 32-byte hash values *)

OnlyD(k, v) == d' = [d EXCEPT ![k] = v] /\ UNCHANGED <<u, f, p, h, out, w, leak>>
DFromBytes(k, bytes) == Len(bytes) = 32 /\ OnlyD(k, bytes)
DFromHex(k, text, ret) ==
    IF Len(text) = 64 /\ IsHexText(text) THEN ret = "ok" /\ OnlyD(k, Reverse(HexTextBytes(text)))
    ELSE Refused(ret)
DFromBadBytes(bytes, ret) == Len(bytes) # 32 /\ Refused(ret)
DToBytes(k, ret) == ret = d[k] /\ UNCHANGED allVars
DToHex(k, ret) == ret = HexTextOf(Reverse(d[k])) /\ UNCHANGED allVars
DEqual(k, j, ret) == ret = (d[k] = d[j]) /\ UNCHANGED allVars
DCompare(k, j, ret) == ret = BCmp(BTrim(d[k]), BTrim(d[j])) /\ UNCHANGED allVars
\* Equal values have equal hash codes.
DHashCodes(k, j, ck, cj) == (d[k] = d[j] => ck = cj) /\ UNCHANGED allVars

----------------------------------------------------------------------------
(* C++ Base58Check.  out.* are the output parameters; a null pointer output is not in the set "outs". *)

AddrEnc(version, hash, ret) == ret = AddressEncode(version, hash) /\ UNCHANGED allVars
AddrDec(text, outs, ret) ==
    LET r == AddressDecode(text)
    IN /\ ret = B2I(r.ok)
       /\ OnlyOut(IF ~r.ok THEN out
                  ELSE [out EXCEPT !.hash = r.hash, !.version = IF "version" \in outs THEN r.version ELSE @])
WifEnc(version, key, compressed, ret) == ret = WifEncode(version, key, compressed = 1) /\ UNCHANGED allVars
WifDec(text, outs, ret) ==
    LET r == WifDecode(text)
    IN /\ ret = B2I(r.ok)
       /\ OnlyOut(IF ~r.ok THEN out
                  ELSE [out EXCEPT !.key = r.key,
                                   !.version = IF "version" \in outs THEN r.version ELSE @,
                                   !.compressed = IF "compressed" \in outs THEN B2I(r.compressed) ELSE @])

(* Java Base58Check: payloads of every length. *)
JB58Enc(data, ret) == ret = B58CheckEncode(data) /\ UNCHANGED allVars
JB58Dec(text, st, ret) ==
    LET r == B58CheckDecode(text)
    IN /\ st = (IF r.ok THEN "ok" ELSE "IllegalArgumentException")
       /\ ret = r.data
       /\ UNCHANGED allVars

(* Bech32 *)
B32Enc(hrp, groups, st, ret) ==
    /\ st = (IF CanEncode32(hrp, groups) THEN "ok" ELSE "IllegalArgumentException")
    /\ ret = (IF CanEncode32(hrp, groups) THEN B32Encode(hrp, groups) ELSE <<>>)
    /\ UNCHANGED allVars
B32Dec(text, st, hrp, groups) ==
    LET r == B32Decode(text)
    IN /\ st = (IF r.ok THEN "ok" ELSE "IllegalArgumentException")
       /\ hrp = r.human /\ groups = r.groups
       /\ UNCHANGED allVars
SegEnc(hrp, ver, prog, st, ret) ==
    /\ st = (IF CanEncodeSegwit(hrp, ver, prog) THEN "ok" ELSE "IllegalArgumentException")
    /\ ret = (IF CanEncodeSegwit(hrp, ver, prog) THEN SegwitEncode(hrp, ver, prog) ELSE <<>>)
    /\ UNCHANGED allVars
SegDec(text, st, hrp, ver, prog) ==
    LET r == SegwitDecode(text)
    IN /\ st = (IF r.ok THEN "ok" ELSE "IllegalArgumentException")
       /\ hrp = r.human /\ ver = r.ver /\ prog = r.prog
       /\ UNCHANGED allVars

----------------------------------------------------------------------------
(* Wallets *)

OnlyW(k, n) == w' = [w EXCEPT ![k] = n] /\ UNCHANGED <<u, f, p, h, d, out, leak>>
WBlank(k) == OnlyW(k, BlankNode)
WNew(k, key, chain, depth, index, parent) == InScalarRange(key) /\ OnlyW(k, Node(key, chain, depth, index, parent))
WChild(k, j, index) == w[j].key # BZero /\ OnlyW(k, Child(w[j], index))
XprvEnc(k, ret) == ret = XprvEncode(w[k]) /\ UNCHANGED allVars
XprvDec(k, text, ret) ==
    LET r == XprvDecode(text)
    IN /\ ret = B2I(r.ok)
       /\ IF r.ok THEN OnlyW(k, r.node) ELSE UNCHANGED allVars

----------------------------------------------------------------------------
(* Constant-time calls: every execution of the same kind of call with the   *)
(* same public inputs looks the same from outside.  class names the kind    *)
(* and its public inputs; obs is the digest of what was observed.           *)
Observe(class, obs) ==
    /\ \A l \in leak : l[1] = class => l[2] = obs
    /\ leak' = leak \cup {<<class, obs>>}
    /\ UNCHANGED <<u, f, p, h, d, out, w>>

----------------------------------------------------------------------------
(* Public constants, which no call may change, and small helpers (C++). *)

KConsts(k) ==
    /\ k.zero = BZero /\ k.one = BOne /\ k.fizero = BZero /\ k.fione = BOne
    /\ k.a = BZero /\ k.b = CurveB /\ k.order = OrderN
    /\ k.g = NormalTriple(BaseG) /\ k.identity = NormalTriple(Identity)
    /\ k.harden = <<128, 0, 0, 0>>
    /\ k.alphabet = B58Alphabet
    /\ k.digits = [i \in 1..16 |-> HexLower(i - 1)]
    /\ k.sizes = <<8, 8, 32, 64, 64, 20, 32>>       \* words of a number and of a field element; SHA-256 (and its block), SHA-512, RIPEMD-160, Keccak-256
    /\ UNCHANGED allVars
KConstsJava(k) ==
    /\ k.g = NormalTriple(BaseG) /\ k.alphabet = B58Alphabet /\ k.sizes = <<32>>
    /\ UNCHANGED allVars
KHexDigit(c, ret) == ret = HexDigitVal(c) /\ UNCHANGED allVars
\* Copies within one buffer, whose two places may overlap (0-based offsets).
KCopy(buf, to, from, n, ret) ==
    /\ to + n <= Len(buf) /\ from + n <= Len(buf)
    /\ ret = [i \in 1..Len(buf) |-> IF to < i /\ i <= to + n THEN buf[i - to + from] ELSE buf[i]]
    /\ UNCHANGED allVars
KStore(bytes, ret) == Len(bytes) = 4 /\ ret = bytes /\ UNCHANGED allVars

----------------------------------------------------------------------------
(* Malformed arguments in Java.  A shape is -1 for null, otherwise the      *)
(* length of the array; needed lengths are -1 where any (or none) will do.  *)

NeededLengths(fn) ==
    CASE fn = "sign"     -> <<8, -1, 8, 8, 8>>
      [] fn = "signHmac" -> <<8, -1, 8, 8>>
      [] fn = "verify"   -> <<24, -1, 8, 8>>
      [] fn \in {"sha256", "sha256d", "sha512", "ripemd160", "keccak256", "hashText", "hashCompare", "b58enc", "b58dec", "b32dec", "segdec", "uHex"} -> <<-1>>
      [] fn \in {"hmac256", "hmac512", "b32enc", "segenc"} -> <<-1, -1>>
      [] fn \in {"hashBytes", "uBytes"} -> <<32>>
JRefuse(fn, shapes, st, intact) ==
    LET need == NeededLengths(fn)
        null == \E i \in 1..Len(shapes) : shapes[i] = -1
        bad  == \E i \in 1..Len(shapes) : shapes[i] >= 0 /\ need[i] >= 0 /\ shapes[i] # need[i]
    IN /\ Len(shapes) = Len(need)
       /\ null \/ bad
       /\ \/ null /\ st = "NullPointerException"
          \/ bad /\ st = "IllegalArgumentException"
       /\ intact          \* no argument was written to
       /\ UNCHANGED allVars

----------------------------------------------------------------------------
(* The assembly routines, called directly: what AsmX8664.hpp promises for   *)
(* all input values.  abi: the caller's registers, the stack and the memory *)
(* around the operands are as before.                                       *)

AsmCall(fn, x, y, en, ret, z, y2, abi) ==
    LET val(a, b) == ret = a /\ z = b
        kept == y2 = y
        add == IF en = 1 THEN y ELSE BZero
    IN /\ abi
       /\ CASE fn = "add"      -> val(B2I(BLe(Two256, BAdd(x, add))), BMod(BAdd(x, add), Two256)) /\ kept
            [] fn = "subtract" -> val(B2I(BLt(x, add)), BSubMod(x, add, Two256)) /\ kept
            [] fn = "shiftLeft1" -> val(BBit(x, 255), BMod(BMul(x, <<2>>), Two256)) /\ kept
            [] fn = "shiftRight1" -> val(0, IF en = 1 THEN BDiv(x, <<2>>) ELSE x) /\ kept
            [] fn = "replace"  -> val(0, IF en = 1 THEN y ELSE x) /\ kept
            [] fn = "swap"     -> val(0, IF en = 1 THEN y ELSE x) /\ y2 = (IF en = 1 THEN x ELSE y)
            [] fn = "equalTo"  -> val(B2I(x = y), x) /\ kept
            [] fn = "lessThan" -> val(B2I(BLt(x, y)), x) /\ kept
            [] fn = "multiply" -> val(0, BMul(x, y)) /\ kept
            [] fn = "step0"    -> val(0, BMod(BMul(x, BSub(BMul(Two256, <<2>>), FieldP)), BMul(Two512, Two256))) /\ kept
            [] fn = "step1"    -> val(0, BMul(x, FieldP)) /\ kept
            [] fn = "step2"    -> val(0, BSubMod(x, BMod(y, BMul(Two256, BPow2(32))), BMul(Two256, BPow2(32)))) /\ kept
       /\ UNCHANGED allVars

----------------------------------------------------------------------------
(* State invariants *)
TypeOK ==
    /\ \A i \in 1..Len(u) : IsU256(u[i])
    /\ \A i \in 1..Len(f) : IsField(f[i])
    /\ \A i \in 1..Len(p) : IsTriple(p[i])
    /\ IsU256(out.r) /\ IsU256(out.s) /\ IsU256(out.key)
    /\ \A l1, l2 \in leak : l1[1] = l2[1] => l1[2] = l2[2]
\* A node's public part belongs to its private part.
WalletOK == \A i \in 1..Len(w) : w[i].key # BZero => (IsNormal(w[i].pub) /\ AffineOnCurve(w[i].pub[1], w[i].pub[2]))
=============================================================================
