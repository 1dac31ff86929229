"""Generators that replay behaviours which TLC prints from the models in spec/ (Gen*.tla)."""
import hashlib

import models
from gens import *
from gens2 import blob, message, xprv_payload, sha256d, b58raw, b58check, B58, B32, b32enc, to5


def nat(le):
    return h32(int.from_bytes(bytes(le), "little"))


def cut(xs, k):
    return [xs[i : i + k] for i in range(0, len(xs), k)]


def g_model_carries(rng, V, lang, n):
    """Every path of a carry and of a borrow through the words."""
    res = []
    for k, part in enumerate(cut(models.behaviours("GenLimbs"), 40)):
        s = S(lang, "l%d" % k, rng, nu=3)
        for mode, x, y in part:
            s.op("USet", 1, nat(x))
            s.op("USet", 2, nat(y))
            if s.java:
                s.op("UAdd" if mode == "add" else "USub", 3, 1, 2, 1)
            else:
                s.op("UAdd" if mode == "add" else "USub", 1, 1, 2, 1)
        res.append(s)
    return res


def g_model_order(rng, V, lang, n):
    """Every pattern of smaller, equal and greater words."""
    res = []
    for k, part in enumerate(cut([b for b in models.behaviours("GenLimbs") if b[0] == "sub"], 40)):
        s = S(lang, "o%d" % k, rng, nu=2)
        for mode, x, y in part:
            s.op("USet", 1, nat(x))
            s.op("USet", 2, nat(y))
            s.op("UCompare", 1, 2)
            s.op("UReplace" if rng.randrange(2) else "USwap", 1, 2, rng.randrange(2))
        res.append(s)
    return res


def g_model_stream(rng, V, lang, n):
    """One test for every state of the buffer and length of the next piece."""
    res = []
    for alg, block, cfg in (("sha256", 64, None), ("sha512", 128, "GenStream512.cfg")):
        for k, part in enumerate(cut(models.behaviours("GenStream", cfg), 60)):
            s = S(lang, "%s.%d" % (alg, k), rng)
            for fill, blocks, m in part:
                s.op("HNew", 1, alg)
                before = blocks * block + fill
                if before:
                    s.op("HAppend", 1, message(rng, before))
                s.op("HAppend", 1, message(rng, m))
                s.op("HFinish", 1)
            res.append(s)
    return res


def _calls(rng, lang, profile, **regs):
    res = []
    for k, part in enumerate(cut(models.behaviours("GenCalls", "GenCalls_%s.cfg" % profile), 16)):
        s = S(lang, "c%d" % k, rng, align=k % 16, temp_first=k % 2, **regs)
        for hist in part:
            u, f, p = ([bytes(x).decode() for x in v] if i < 2 else [[bytes(y).decode() for y in x] for x in v] for i, v in enumerate(hist[0][1:]))
            for i, x in enumerate(u):
                s.op("USet", i + 1, x)
            for i, x in enumerate(f):
                s.op("FSet", i + 1, x)
            for i, x in enumerate(p):
                s.op("PSet", i + 1, *x)
            for name, *a in hist[1:]:
                if name in ("UAdd", "USub"):
                    s.u3(name, *a)
                elif name in ("UShl1", "UShr1"):
                    s.u2(name, *a)
                elif name in ("FAddA", "FSubA", "FMulA"):
                    s.f3(name, *a)
                elif name in ("FDblA", "FSqrA"):
                    s.f2(name, *a)
                else:
                    s.op(name, *a)
        res.append(s)
    return res


def g_model_ints(rng, V, lang, n):
    return _calls(rng, lang, "ints", nu=2)


def g_model_field(rng, V, lang, n):
    return _calls(rng, lang, "field", nf=2)


def g_model_points(rng, V, lang, n):
    return _calls(rng, lang, "points", nu=1, np=2)


# ---------------------------------------------------------------------------------------------- the neighbourhood of a text, exhaustively

def near_texts(t, alphabet, strangers):
    """Every text that one slip makes of t: a character replaced, dropped, doubled, inserted; two neighbours swapped; a change of case; cut ends."""
    yield t
    for i in range(len(t)):
        for c in alphabet:
            if c != t[i]:
                yield t[:i] + c + t[i + 1:]
        for c in strangers:
            yield t[:i] + c + t[i + 1:]
        yield t[:i] + t[i + 1:]
        yield t[:i] + t[i] + t[i:]
        if i:
            yield t[:i - 1] + t[i] + t[i - 1] + t[i + 1:]
            yield t[:i]
            yield t[i:]
        if t[i].swapcase() != t[i]:
            yield t[:i] + t[i].swapcase() + t[i + 1:]
    for i in range(len(t) + 1):
        for c in (alphabet[0], alphabet[1], alphabet[-1]):
            yield t[:i] + c + t[i:]
    for c in list(alphabet) + list(strangers):
        yield t + c
        yield c + t
    for k in range(1, 5):
        yield alphabet[0] * k + t
        yield t + alphabet[0] * k


STRANGE = "0OIl /:@[`{~\x01\x7f\x80\xff\n\xb1"
WIDE = "\0\u0131\u0130\u212a\u0661\uff11\uff21\uff41\u0100\u0131\u2160\ud835"


def texts_in_sessions(lang, pre, texts, call, rng, per=60, **kw):
    res = []
    for k, part in enumerate(cut(list(texts), per)):
        s = S(lang, "%s%d" % (pre, k), rng, **kw)
        for t in part:
            call(s, t)
        res.append(s)
    return res


def codes(lang, t):
    return [ord(c) for c in t] if lang == "java" else [ord(c) & 255 for c in t if ord(c) & 255]


def g_near_addr(rng, V, lang, n):
    res = []
    for name, p in (("a", bytes([rng.choice((0, 5, 111))]) + rng.randbytes(20)), ("z", bytes(3) + rng.randbytes(18))):
        res += texts_in_sessions(lang, name, near_texts(b58check(p), B58, STRANGE), lambda s, t: s.op("AddrDec", codes(lang, t), 1), rng)
    return res


def g_near_wif(rng, V, lang, n):
    res = []
    for name, tail in (("u", b""), ("c", b"\1")):
        p = bytes([rng.choice((128, 239, 0))]) + rng.randbytes(32) + tail
        res += texts_in_sessions(lang, name, near_texts(b58check(p), B58, STRANGE), lambda s, t: s.op("WifDec", codes(lang, t), 1, 1), rng)
    return res


def g_near_xprv(rng, V, lang, n):
    p = xprv_payload(rng, V)
    return texts_in_sessions(lang, "x", near_texts(b58check(p), B58[::3] + B58[-1], "0Il \xb1"), lambda s, t: s.op("XprvDec", 1, codes(lang, t)), rng, nw=1)


def g_near_b58java(rng, V, lang, n):
    res = []
    for name, p in (("a", bytes(1) + rng.randbytes(20)), ("e", b""), ("z", bytes(5)), ("k", rng.randbytes(7))):
        res += texts_in_sessions(lang, name, near_texts(b58check(p), B58, STRANGE + WIDE), lambda s, t: s.op("JB58Dec", codes(lang, t)), rng)
    return res


def b58_payloads(rng, good, spots):
    """A valid payload and every value of the bytes that matter, every length, every damage of the checksum; as texts."""
    for p in good:
        d = sha256d(p)[:4]
        yield b58raw(p + d)
        for i in range(4):
            for x in range(1, 256):
                yield b58raw(p + d[:i] + bytes([d[i] ^ x]) + d[i + 1:])
        for i in spots:
            if i < len(p):
                for x in range(256):
                    yield b58check(p[:i] + bytes([x]) + p[i + 1:])
        for m in range(len(p) + 40):      # cut at either end, or longer
            yield b58check(p[:m] if m <= len(p) else p + rng.randbytes(m - len(p)))
            yield b58check(p[-m:] if m and m <= len(p) else bytes(m - len(p)) + p if m else b"")
            yield b58check(bytes(m))
            yield b58check(b"\xff" * m)
        for k in range(1, 200):      # the same remainder in an array of that size
            yield b58raw_num(p + d, 256 ** (len(p) + 4) * k)
            yield b58raw_num(p + d, 256 ** (len(p) + 4 + k % 5) * 58 ** (k % 7))
        for z in range(1, 8):        # the ones in front say something else than the number
            yield "1" * z + b58raw(p + d)
            yield b58raw(bytes(z) + p + d).lstrip("1")
            yield b58raw((bytes(z) + p)[:len(p)] + sha256d((bytes(z) + p)[:len(p)])[:4]).lstrip("1")


def b58raw_num(data, add):
    n = int.from_bytes(data, "big") + add
    r = ""
    while n:
        n, m = divmod(n, 58)
        r = B58[m] + r
    return r


def g_fields_addr(rng, V, lang, n):
    good = [bytes([7]) + rng.randbytes(20), bytes(1) + rng.randbytes(20), bytes(4) + rng.randbytes(17)]
    return texts_in_sessions(lang, "fa", b58_payloads(rng, good, (0, 1, 20)), lambda s, t: s.op("AddrDec", codes(lang, t), 1), rng)


def g_fields_wif(rng, V, lang, n):
    good = [bytes([128]) + rng.randbytes(32), bytes([128]) + rng.randbytes(32) + b"\1", bytes(6) + rng.randbytes(27), bytes(6) + rng.randbytes(27) + b"\1"]
    return texts_in_sessions(lang, "fw", b58_payloads(rng, good, (0, 1, 32, 33)), lambda s, t: s.op("WifDec", codes(lang, t), 1, 1), rng)


def g_fields_xprv(rng, V, lang, n):
    good = [xprv_payload(rng, V)]
    return texts_in_sessions(lang, "fx", b58_payloads(rng, good, (0, 1, 2, 3, 4, 5, 9, 12, 45, 46)), lambda s, t: s.op("XprvDec", 1, codes(lang, t)), rng, nw=1)


def g_fields_b58java(rng, V, lang, n):
    good = [rng.randbytes(21), bytes(1) + rng.randbytes(9), b""]
    return texts_in_sessions(lang, "fj", b58_payloads(rng, good, (0,)), lambda s, t: s.op("JB58Dec", codes(lang, t)), rng)


def g_near_bech32(rng, V, lang, n):
    res = []
    for name, h, g in (("a", "bc", [rng.randrange(32) for _ in range(9)]), ("b", "a1-b", [rng.randrange(32) for _ in range(2)]), ("c", "{x", []), ("d", "1", [0] * 3)):
        t = b32enc(h, g)
        for m, x in (("l", t), ("u", t.upper())):
            res += texts_in_sessions(lang, name + m, near_texts(x, B32 if m == "l" else B32.upper(), "1bio!~" + STRANGE + WIDE), lambda s, y: s.op("B32Dec", codes(lang, y)), rng)
    return res


def g_fields_bech32(rng, V, lang, n):
    """Every character in every place of a prefix; every total length around the limit; every other checksum nearby; every symbol as a group."""
    dec, enc = [], []
    for h in ("abc", "x"):
        for i in range(len(h) + 1):
            for c in list(range(0, 300)) + [0x131, 0x130, 0x212A, 0x17F, 0xFF41, 0xD800, 0xFFFF, 0x0430, 0x2061]:
                g = h[:i] + chr(c) + h[i + 1:]
                enc.append((g, [1, 2]))
                if c < 128:
                    dec.append(b32enc(g, [1, 2]))
                else:
                    dec.append(g + "1" + b32enc(h, [1, 2])[len(h) + 1:])
    for m in range(0, 95):
        for h in ("", "a", "bc", "b" * max(0, 83 - m), "c" * max(0, 84 - m), "d" * m):
            enc.append((h, [m % 32] * m))
            if h:
                dec.append(b32enc(h, [m % 32] * m))
                dec.append(b32enc(h, [m % 32] * m).upper())
    for v in range(-128, 128):
        enc += [("bc", [v]), ("bc", [0, v, 31]), ("bc", [v] * 5)]
    for b in range(30):
        for h, g in (("bc", [3, 1, 4, 1, 5]), ("a", []), ("~1!", [0])):
            dec.append(b32enc(h, g, 1 ^ 1 << b))
            dec.append(b32enc(h, g, 1 << b))
    for c in (0, 2, 0x2bc830a3, 0x3fffffff):
        dec.append(b32enc("bc", [1, 2, 3], c))
    for m in range(0, 9):
        dec += ["bc1" + "q" * m, "1" + "q" * m, "1" * m, "q" * m, "A" * m, "bc" + "q" * m, "bc1" * m]
    res = texts_in_sessions(lang, "fd", dec, lambda s, t: s.op("B32Dec", codes(lang, t)), rng)
    return res + texts_in_sessions(lang, "fe", enc, lambda s, x: s.op("B32Enc", [ord(c) for c in x[0]], x[1]), rng)


def g_fields_segwit(rng, V, lang, n):
    """Every version with every program length; every number of groups with every padding."""
    enc, dec = [], []
    for ln in range(0, 46):
        for ver in list(range(-2, 34)) + [127, 128, 255, 256, 2147483647, -2147483648]:
            if ver in (0, 1, 16, 17, -1) or (ver * 7 + ln) % 3 == 0:
                enc.append(("bc", ver, rng.randbytes(ln)))
    for ln in range(0, 46):
        for h in ("a", "tb", "x" * 10, "y" * 18, "y" * 19, "z" * (90 - 7 - 1 - (8 * ln + 4) // 5) if 82 > (8 * ln + 4) // 5 else "q"):
            enc.append((h, 0, blob(rng, ln)))
            enc.append((h + "w", 3, blob(rng, ln)))
    for ng in range(0, 72):
        for ver in range(0, 32):
            if ver in (0, 1, 16, 17, 31) or (ver + ng) % 4 == 0:
                g = [rng.randrange(32) for _ in range(ng)]
                spare = 5 * ng % 8
                if ng and rng.randrange(4):
                    for k in range(min(spare, 5)):
                        g[-1] &= ~(1 << k)
                    if spare > 5:
                        g[-2] &= ~((1 << spare - 5) - 1)
                dec.append(b32enc("bc", [ver] + g))
        for pad in range(256):      # what is beyond the last whole byte: any pattern
            spare = 5 * ng % 8
            if ng >= 2 and pad < 1 << spare:
                g = [rng.randrange(32) for _ in range(ng)]
                low = (g[-2] << 5 | g[-1]) >> spare << spare | pad
                g[-2:] = [low >> 5, low & 31]
                dec.append(b32enc("tb", [rng.choice((0, 1, 16))] + g))
    res = texts_in_sessions(lang, "fe", enc, lambda s, x: s.op("SegEnc", [ord(c) for c in x[0]], x[1], x[2].hex()), rng)
    return res + texts_in_sessions(lang, "fd", dec, lambda s, t: s.op("SegDec", codes(lang, t)), rng)


def g_near_segwit(rng, V, lang, n):
    res = []
    for name, h, ver, p in (("a", "bc", 0, rng.randbytes(20)), ("b", "tb", 16, rng.randbytes(3)), ("c", "bcrt", 1, rng.randbytes(2))):
        t = b32enc(h, [ver] + to5(p))
        res += texts_in_sessions(lang, name, near_texts(t, B32, "1bio!A" + WIDE[:4]), lambda s, y: s.op("SegDec", codes(lang, y)), rng)
        res += texts_in_sessions(lang, name + "u", list(near_texts(t.upper(), B32.upper(), "1b "))[::3], lambda s, y: s.op("SegDec", codes(lang, y)), rng)
    return res


# ---------------------------------------------------------------------------------------------- histories of hashers and wallets

def g_model_hashers(rng, V, lang, n):
    res = []
    for alg, cfg in (("sha256", "GenHashers256.cfg"), ("sha512", "GenHashers512.cfg")):
        for k, part in enumerate(cut(models.behaviours("GenHashers", cfg), 60)):
            s = S(lang, "%s.%d" % (alg, k), rng)
            for hist in part:
                live = set()
                for name, i, *a in hist:
                    if name == "HNew":
                        s.op("HNew", i, alg)
                    elif name == "HAppend":
                        s.op("HAppend", i, message(rng, a[0]))
                    else:
                        s.op(name, i, *a)
                    (live.discard if name == "HFinish" else live.add)(i)
                for i in sorted(live):
                    s.op("HFinish", i)
            res.append(s)
    return res


class Node:
    """What a wallet register holds, as far as writing it needs."""

    def __init__(self, key, chain, depth, index, parent):
        self.key, self.chain, self.depth, self.index, self.parent = key, chain, depth, index, parent

    def text(self):
        return b58check(bytes.fromhex("0488ade4") + bytes([self.depth]) + self.parent + self.index + self.chain + b"\0" + bytes.fromhex(h32(self.key)))

    def child(self, index):
        q = gmul(self.key, G)
        pub = bytes([2 + q[1] % 2]) + bytes.fromhex(h32(q[0]))
        mac = hmac("sha512", self.chain, (b"\0" + bytes.fromhex(h32(self.key)) if index[0] >= 128 else pub) + index)
        return Node((self.key + int.from_bytes(mac[:32], "big")) % N, mac[32:], (self.depth + 1) % 256, index,
                    hashlib.new("ripemd160", hashlib.sha256(pub).digest()).digest()[:4])


def g_model_wallet(rng, V, lang, n):
    res = []
    for k, part in enumerate(cut(models.behaviours("GenWallet"), 8)):
        s = S(lang, "w%d" % k, rng, nw=2)
        for hist in part:
            key, chain, dep, idx, par = V.scalar(), blob(rng, 32), rng.choice((0, 254, 255)), blob(rng, 4), blob(rng, 4)
            s.op("WNew", 1, h32(key), chain.hex(), dep, idx.hex(), par.hex())
            s.op("WBlank", 2)
            reg = {1: Node(key, chain, dep, idx, par)}
            text = None
            for name, i, *a in hist:
                if name == "child":
                    index = bytes(a[1])
                    if rng.randrange(2):
                        index = bytes([index[0] & 128 | rng.randrange(128)]) + rng.randbytes(3)
                    s.op("WChild", i, a[0], index.hex())
                    reg[i] = reg[a[0]].child(index)
                elif name == "write":
                    s.op("XprvEnc", i)
                    text = reg[i]
                elif name == "read":
                    s.op("XprvDec", i, codes(lang, text.text()))
                    reg[i] = text
                else:
                    t = (text or reg[1]).text()
                    j = rng.randrange(len(t))
                    s.op("XprvDec", i, codes(lang, t[:j] + B58[(B58.index(t[j]) + 1) % 58] + t[j + 1:]))
        res.append(s)
    return res


def g_fields_wallet(rng, V, lang, n):
    """Every depth, every number of leading zeros of every field, every single bit of an index, keys next to the ends of the range."""
    res = []
    cases = []
    for d in range(256):
        cases.append((V.scalar(), rng.randbytes(32), d, rng.randbytes(4), rng.randbytes(4), 1 << 31 & rng.getrandbits(32)))
    for z in range(32):
        cases.append((int.from_bytes(bytes(z) + rng.randbytes(32 - z), "big") % N or 1, bytes(z) + rng.randbytes(32 - z), z, bytes(z % 4) + rng.randbytes(4 - z % 4), bytes(z // 4 % 4) + rng.randbytes(4 - z // 4 % 4), 1 << z))
        cases.append((1 << 8 * z, rng.randbytes(32 - z) + bytes(z), 0, bytes(4), bytes(4), (1 << 32) - 1 - (1 << z)))
        cases.append(((N - 1) >> 8 * z, bytes(32), 255, b"\xff" * 4, b"\xff" * 4, 0x80000000 | 1 << z))
    for key in (1, 2, 3, N - 1, N - 2, N // 2, N // 2 + 1, (1 << 255), (1 << 128) - 1):
        for ix in (0, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF):
            cases.append((key, b"\xff" * 32, 7, b"\0\0\0\1", b"\1\0\0\0", ix))
    for k, part in enumerate(cut(cases, 12)):
        s = S(lang, "fw%d" % k, rng, nw=2)
        for key, chain, dep, idx, par, ix in part:
            s.op("WNew", 1, h32(key), chain.hex(), dep, idx.hex(), par.hex())
            s.op("XprvEnc", 1)
            s.op("WChild", 2, 1, "%08x" % ix)
            s.op("XprvEnc", 2)
        res.append(s)
    return res


def g_fields_b58enc(rng, V, lang, n):
    """Every version byte, every number of zero bytes at either end, every single byte."""
    cases = []
    for v in range(256):
        cases.append(("AddrEnc", v, blob(rng, 20).hex()))
        cases.append(("WifEnc", v, blob(rng, 32).hex(), v % 2))
        cases.append(("WifEnc", v, rng.randbytes(32).hex(), 1 - v % 2))
    for z in range(33):
        for v in (0, 1, 128, 255):
            if z <= 20:
                cases += [("AddrEnc", v, (bytes(z) + rng.randbytes(20 - z)).hex()), ("AddrEnc", v, (rng.randbytes(20 - z) + bytes(z)).hex()), ("AddrEnc", v, (bytes(z) + b"\xff" * (20 - z)).hex())]
            for c in (0, 1):
                cases += [("WifEnc", v, (bytes(z) + rng.randbytes(32 - z)).hex(), c), ("WifEnc", v, (rng.randbytes(32 - z) + bytes(z)).hex(), c), ("WifEnc", v, (b"\xff" * z + bytes(32 - z)).hex(), c)]
    res = []
    for k, part in enumerate(cut(cases, 50)):
        s = S(lang, "fe%d" % k, rng)
        for c in part:
            s.op(*c)
        res.append(s)
    return res
