"""Generators for the hash functions, the codecs and the wallets."""
import hashlib
import unicodedata

from gens import S, chars, hexcase, near
from refmath import *
from vlib import Tr


# ---------------------------------------------------------------------------------------------- C12 - C16: hash functions

def message(rng, n):
    """n bytes, as hexadecimal digits."""
    k = rng.randrange(8)
    if k == 0:
        return rng.choice(("00", "ff", "80", "01", "7f", "36", "5c", "a5")) * n
    if k == 1 and n:      # one bit
        b = bytearray(n)
        b[rng.randrange(n)] = 1 << rng.randrange(8)
        return b.hex()
    if k == 2 and n:
        b = bytearray(b"\xff" * n)
        b[rng.randrange(n)] ^= 1 << rng.randrange(8)
        return b.hex()
    if k == 3:
        return bytes(i & 255 for i in range(n)).hex()
    if k == 4 and n:      # ends like padding does
        b = bytearray(rng.getrandbits(8) for _ in range(n))
        b[-1] = rng.choice((0x80, 0x01, 0x81, 0x00))
        return b.hex()
    return bytes(rng.getrandbits(8) for _ in range(n)).hex() if n < 3000 else rng.randbytes(n).hex()


def lengths(rng, V, block, n, small, top=5000):
    """All lengths below `small`, then lengths at block boundaries, powers of two and numbers in the sources."""
    for i in range(small):
        yield i
    lits = [x for x in V.small if x < top]
    for _ in range(n):
        k = rng.randrange(6)
        if k == 0:
            yield max(0, block * rng.randrange(1, max(2, top // block)) + rng.randrange(-18, 3))
        elif k == 1:
            yield max(0, (1 << rng.randrange(6, 13)) + rng.randrange(-2, 3))
        elif k == 2 and lits:
            yield max(0, rng.choice(lits) + rng.randrange(-1, 2))
        else:
            yield rng.randrange(top if k == 3 else 4 * block)


def sessions(lang, rng, pre, calls, per=12, **kw):
    res, s = [], None
    for k, c in enumerate(calls):
        if k % per == 0:
            s = S(lang, "%s%d" % (pre, k // per), rng, **kw)
            res.append(s)
        s.op(*c)
    return res


def key_lengths(rng, block):
    return rng.choice((0, 1, block - 1, block, block + 1, block // 2, block // 2 + 1, 2 * block, 2 * block + 1, 2 * block - 1,
                       rng.randrange(block), rng.randrange(block), rng.randrange(4 * block), rng.randrange(block - 20, block + 20)))


def mac_calls(rng, V, alg, block, n):
    for i in range(n):
        m = rng.choice((0, 1, block - 9, block - 8, block, rng.randrange(3 * block), rng.randrange(3 * block)))
        kl = i if i <= 3 * block and i < n // 2 else key_lengths(rng, block)
        yield "MacOf", alg, message(rng, kl), message(rng, m)


def g_sha256(rng, V, lang, n):
    calls = []
    for k, i in enumerate(lengths(rng, V, 64, n, 330)):
        calls.append(("HashOf", "sha256", message(rng, i)))
        if k % 2 == 0 or i < 140:
            calls.append(("HashOf", "sha256d", message(rng, i)))
    calls += mac_calls(rng, V, "sha256", 64, 2 * n)
    if lang == "cpp":
        for _ in range(n):
            st = "".join("%08x" % V.word() for _ in range(8)) if rng.randrange(2) else rng.randbytes(32).hex()
            bl = "".join("%08x" % V.word() for _ in range(16)) if rng.randrange(2) else rng.randbytes(64).hex()
            calls.append(("Compress256", st, bl))
    rng.shuffle(calls)
    return sessions(lang, rng, "H", calls)


def g_sha512(rng, V, lang, n):
    calls = [("HashOf", "sha512", message(rng, i)) for i in lengths(rng, V, 128, n, 530)]
    calls += mac_calls(rng, V, "sha512", 128, 2 * n)
    rng.shuffle(calls)
    return sessions(lang, rng, "H", calls)


def g_ripemd160(rng, V, lang, n):
    calls = [("HashOf", "ripemd160", message(rng, i)) for i in lengths(rng, V, 64, 3 * n, 460)]
    rng.shuffle(calls)
    return sessions(lang, rng, "H", calls)


def g_keccak256(rng, V, lang, n):
    calls = [("HashOf", "keccak256", message(rng, i)) for i in lengths(rng, V, 136, 3 * n, 560)]
    rng.shuffle(calls)
    return sessions(lang, rng, "H", calls)


# Lengths in bytes that cross a word size in bits or bytes. Only the optimized builds get them.
HUGE = {"cpp": ((1 << 29) + 3, (1 << 32) + 70, (1 << 28) + 64), "java": ((1 << 29) + 3, (1 << 28) + 64, (1 << 30) + 1)}


def huge(alg, rng, lang, n):
    """The first n of those lengths."""
    res = []
    for length in HUGE[lang][:n]:
        algs = [alg]
        if lang == "cpp" and alg in ("sha256", "sha512") and length < 1 << 30:
            algs.append(alg + "stream")
        for a in algs:
            s = S(lang, "%s%d" % (a, length), rng)
            s.op("HugeHash", a, str(length))
            s.only = {"pure-opt", "java-da"}
            res.append(s)
    return res


def g_huge256(rng, V, lang, n):
    return huge("sha256", rng, lang, n)


def g_huge512(rng, V, lang, n):
    return huge("sha512", rng, lang, n)


def g_hugermd(rng, V, lang, n):
    return huge("ripemd160", rng, lang, n)


def g_hugekeccak(rng, V, lang, n):
    return huge("keccak256", rng, lang, n)


# ---------------------------------------------------------------------------------------------- C13: streaming

def chunks(rng, block, total):
    """Lengths that add up to total."""
    style = rng.randrange(6)
    left = total
    while left > 0:
        if style == 0:
            c = 1
        elif style == 1:
            c = rng.randrange(0, 4)
        elif style == 2:
            c = block + rng.randrange(-1, 2)
        elif style == 3:
            c = rng.randrange(0, 3 * block)
        elif style == 4:
            c = rng.choice((0, 1, block - 1, block, block + 1, 2 * block, 2 * block - 1, 3 * block + 1, 7))
        else:
            c = left
        c = min(c, left)
        yield c
        left -= c
        if rng.randrange(6) == 0:
            style = rng.randrange(6)
    if rng.randrange(3) == 0:
        yield 0


def g_stream(rng, V, lang, n):
    """Several hashers at once, fed in pieces, forked and finished."""
    res = []
    for k in range(n):
        s = S(lang, "st%d" % k, rng)
        plan = {}
        total = {}

        def start(i):
            alg = rng.choice(("sha256", "sha512"))
            b = 64 if alg == "sha256" else 128
            j = rng.randrange(4)
            t = (k // 4) % 300 if j == 0 else rng.randrange(3 * b) if j == 1 else max(0, b * rng.randrange(1, 6) - rng.choice((0, 1, 8, 9, 16, 17, b // 2))) if j == 2 else rng.randrange(12 * b)
            s.op("HNew", i, alg)
            plan[i] = (alg, list(chunks(rng, b, t)))
        for i in rng.sample((1, 2, 3, 4), rng.randrange(1, 5)):
            start(i)
        steps = 0
        while plan:
            steps += 1
            i = rng.choice(sorted(plan))
            alg, cs = plan[i]
            j = rng.randrange(14)
            if j == 0:      # a copy continues on its own, perhaps on other data
                t = rng.choice([x for x in (1, 2, 3, 4) if x != i])
                s.op("HCopy", t, i)
                plan[t] = (alg, list(cs) if rng.randrange(2) else list(chunks(rng, 64, rng.randrange(200))))
            elif j == 1 and steps < 40:
                start(rng.randrange(1, 5))      # possibly in place of an unfinished one
            elif cs:
                for _ in range(min(len(cs), rng.choice((1, 1, 3, 20)))):
                    s.op("HAppend", i, message(rng, cs.pop(0)))
            else:
                s.op("HFinish", i)
                del plan[i]
                if steps < 10 and rng.randrange(2):
                    start(i)
            if steps > 300:
                break
        for i in sorted(plan):
            s.op("HFinish", i)
        res.append(s)
    return res


# ---------------------------------------------------------------------------------------------- C17: hash values

def g_hashvalue(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "d%d" % k, rng, nd=3)
        vals = {1: 0, 2: 0, 3: 0}
        for _ in range(14):
            i = rng.randrange(1, 4)
            j = rng.randrange(1, 4)
            op = rng.randrange(8)
            if op < 3:
                v = near(rng, vals[j]) if rng.randrange(3) else V.u()
                vals[i] = v
                s.op("DFromBytes", i, h32(v))
            elif op == 3:
                v = near(rng, vals[j]) if rng.randrange(3) else V.u()
                t = chars(hexcase(rng, h32(v)))
                if s.java and rng.randrange(2) == 0:
                    m = rng.randrange(6)
                    if m == 0:
                        t = t[rng.choice((1, 2, 64)):]
                    elif m == 2:
                        t = [ord(c) for c in lookalike(rng, "".join(map(chr, t)))]
                    elif m == 1:
                        t += rng.choice(([48], [48, 48], [10]))
                    else:
                        p = rng.randrange(64)
                        t[p] = rng.choice((47, 58, 64, 71, 96, 103, 32, 43, 45, 10, 0x661, 0xFF11, 0xFF21, 120, 88, 0))
                else:
                    vals[i] = int.from_bytes(bytes.fromhex(h32(v))[::-1], "big")
                s.op("DFromHex", i, t)
            elif op < 6 or not s.java:
                s.op("DEqual", i, j)
            elif op == 6:
                s.op("DCompare", i, j)
                s.op("DCompare", j, i)
                s.op("DHashCodes", i, j)
                s.op("DHashCodes", i, i)
            else:
                x = rng.randrange(3)
                if x == 0:
                    s.op("DToBytes", i)
                elif x == 1:
                    s.op("DToHex", i)
                else:
                    m = rng.choice((0, 1, 16, 31, 33, 64))
                    s.op("DFromBadBytes", "ab" * m)
        res.append(s)
    return res


# ---------------------------------------------------------------------------------------------- C18 - C20: Base58Check

def b58text(rng, n, lead=None):
    return "".join(rng.choice(B58) for _ in range(n))


def blob(rng, n):
    """n bytes; often with leading zeros, or with extreme values."""
    k = rng.randrange(8)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2 and n > 1:      # a small number
        z = n - rng.randrange(1, 4)
        return bytes(max(z, 0)) + (rng.randbytes(n - max(z, 0)) if rng.randrange(2) else bytes([rng.randrange(1, 10)]).rjust(n - max(z, 0), b"\0"))
    if k < 4:
        z = rng.randrange(n + 1)
        return bytes(z) + rng.randbytes(n - z)
    if k == 4 and n:
        b = bytearray(n)
        b[rng.randrange(n)] = rng.randrange(256)
        return bytes(b)
    if k == 5 and n:
        z = rng.randrange(n + 1)
        return rng.randbytes(z) + bytes(n - z)
    return rng.randbytes(n)


def version_byte(rng):
    return rng.choice((0, 0, 1, 5, 0x6F, 0x80, 0xEF, 127, 128, 255, rng.randrange(256)))


def _alike():
    """Characters outside ASCII that some conversion of Unicode takes for an ASCII character, whatever its case."""
    res = {}
    for x in range(128, 65536):
        if 0xD800 <= x < 0xE000:
            continue
        c = chr(x)
        d = unicodedata.digit(c, None)
        fold = {c.lower(), c.upper(), c.casefold(), c.lower()[:1]}
        for y in fold | {unicodedata.normalize("NFKC", c), unicodedata.normalize("NFKD", c)[:1], str(d)}:
            if len(y) == 1 and 32 < ord(y) < 127:
                for z in {y.lower(), y.upper()}:
                    a, b = res.setdefault(z, ([], []))
                    (a if y in fold else b).append(x)
    return {y: (sorted(set(a)), sorted(set(b))) for y, (a, b) in res.items()}


ALIKE = _alike()


def lookalike(rng, t):
    """One character is replaced by another one that careless folding or narrowing takes for it."""
    folds = [i for i, c in enumerate(t) if c in ALIKE and ALIKE[c][0]]
    every = [i for i, c in enumerate(t) if c in ALIKE and ALIKE[c][1]]
    k = rng.randrange(4)
    if k == 0 and t or not (folds or every):
        i = rng.randrange(len(t)) if t else 0
        x = ord(t[i]) | rng.choice((0x80, 0x100, 0x1000, 0x8000, 0xFF00, rng.randrange(1, 0xD8) << 8)) if t else 0x130
    elif folds and (k < 3 or not every):
        i = rng.choice(folds)
        x = rng.choice(ALIKE[t[i]][0])
    else:
        i = rng.choice(every)
        x = rng.choice(ALIKE[t[i]][1])
    return t[:i] + chr(x) + t[i + 1:]


def mutate58(rng, t):
    """A text near t that mostly is not valid."""
    k = rng.randrange(16)
    if k == 0:
        return "1" + t
    if k == 1:
        return t[1:] if t.startswith("1") else "1" + t
    if k == 2 and t:      # one digit replaced
        i = rng.randrange(len(t))
        return t[:i] + rng.choice(B58) + t[i + 1:]
    if k == 3 and t:
        i = rng.randrange(len(t))
        return t[:i] + rng.choice("0OIl +/:@[`{~\x01\x7f\n\t-_=.") + t[i + 1:]
    if k == 4 and t:
        i = rng.randrange(len(t))
        return t[:i] + chr(rng.choice((0x80, 0xB1, 0xFF, 0xC1, 0xE1, ord(t[i]) | 0x80))) + t[i + 1:]
    if k == 5 and len(t) > 1:
        i = rng.randrange(len(t) - 1)
        return t[:i] + t[i + 1] + t[i] + t[i + 2:]
    if k == 6:
        return t + rng.choice(B58)
    if k == 7:
        return t[:-1]
    if k == 8:
        return rng.choice((" " + t, t + " ", t + "\n", "\t" + t))
    if k == 9:
        return t[: rng.randrange(len(t) + 1)]
    if k == 10:
        return t + t
    if k == 11:
        return "1" * rng.randrange(80) + t
    if k == 12:
        return t.swapcase() if rng.randrange(2) else t.lower()
    if k == 13:
        return b58text(rng, rng.choice((len(t), len(t), rng.randrange(130))))
    if k == 14:      # the number is larger by 256^k: a carry out of the array
        n = 0
        for c in t:
            if c not in B58:
                return t
            n = n * 58 + B58.index(c)
        n += 256 ** rng.choice((25, 37, 38, 82, 24, 36, 81, 26)) * rng.randrange(1, 60)
        r = ""
        while n:
            n, m = divmod(n, 58)
            r = B58[m] + r
        return r
    return rng.choice(("", "1", "11", "z" * rng.randrange(1, 200), "1" * rng.randrange(60), t[::-1]))


def check_variants(rng, payload):
    """The text of a payload with a checksum that is right, or wrong in some byte or by being another function."""
    k = rng.randrange(6)
    d = sha256d(payload)
    if k == 0:
        c = bytearray(d[:4])
        c[rng.randrange(4)] ^= 1 << rng.randrange(8)
        return b58raw(payload + bytes(c))
    if k == 1:
        return b58raw(payload + rng.choice((hashlib.sha256(payload).digest()[:4], d[28:], d[:4][::-1], d[1:5], d[:3], d[:5], bytes(4))))
    return b58raw(payload + d[:4])


def g_b58_encode(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "e%d" % k, rng)
        for _ in range(10):
            if rng.randrange(2):
                s.op("AddrEnc", version_byte(rng), blob(rng, 20).hex())
            else:
                s.op("WifEnc", version_byte(rng), blob(rng, 32).hex() if rng.randrange(2) else h32(V.u()), rng.randrange(2))
        res.append(s)
    return res


def g_b58_decode(rng, V, lang, n):
    res = []
    s = S(lang, "xz", rng)
    for ln, ver in ((20, 0), (32, 0), (33, 0), (20, 1), (32, 255)):      # every number of leading zeros
        for z in range(ln):
            for tail in ([1], [rng.randrange(2, 12)], [255] * (ln - z)):
                p = bytes([ver]) + (bytes(z) + bytes(tail).rjust(ln - z, b"\0"))[:ln]
                if ln == 33:
                    p = p[:33] + b"\1"
                s.op("AddrDec" if ln == 20 else "WifDec", [ord(c) for c in b58check(p)], 1, *([] if ln == 20 else [1]))
        res.append(s)
        s = S(lang, "xz%d.%d" % (ln, ver), rng)
    for k in range(n):
        s = S(lang, "x%d" % k, rng)
        for _ in range(12):
            if rng.randrange(3) == 0:
                s.op("OutPreset", rng.randrange(256), rng.randrange(2))
            addr = rng.randrange(2)
            if addr:
                p = bytes([version_byte(rng)]) + blob(rng, 20)
            else:
                p = bytes([version_byte(rng)]) + (blob(rng, 32) if rng.randrange(2) else bytes.fromhex(h32(V.u()))) + rng.choice((b"", b"\1"))
            j = rng.randrange(10)
            if j < 3:
                t = b58check(p)
            elif j == 3:      # a payload of another length
                m = rng.choice((-1, 1, -2, 2, 12, 13, 14, -12, -13))
                p = p[:m] if m < 0 else p + blob(rng, m)
                t = check_variants(rng, p)
            elif j == 4:      # another marker
                p = p[:33] + bytes([rng.choice((0, 2, 0x81, 0xFF, 1, 0x11, rng.randrange(256)))])
                t = b58check(p)
            elif j == 5:
                t = check_variants(rng, p)
            elif j == 6:      # a prefix of zeros and a text that begins with ones
                p = bytes(rng.randrange(1, 12)) + p
                p = p[: (21, 33, 34)[rng.randrange(3)]]
                t = b58check(p)
                if rng.randrange(2):
                    t = mutate58(rng, t)
            else:
                t = mutate58(rng, b58check(p))
            t = [ord(c) & 255 for c in t if ord(c) & 255]
            if (rng.randrange(8) == 0) != bool(addr):
                s.op("AddrDec", t, rng.randrange(2))
            else:
                s.op("WifDec", t, rng.randrange(2), rng.randrange(2))
        res.append(s)
    return res


def g_b58_java(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "j%d" % k, rng)
        for i in range(12):
            ln = rng.choice((0, 1, 2, 3, 4, 5, 20, 21, 32, 33, 34, 37, 38, 78, (12 * k + i) % 120, rng.randrange(200)))
            p = blob(rng, ln)
            if rng.randrange(3) == 0:
                s.op("JB58Enc", p.hex())
                if rng.randrange(2) == 0:
                    continue
            j = rng.randrange(8)
            if j < 2:
                t = b58check(p)
            elif j == 2:      # too short for a checksum, or just long enough
                t = b58raw(blob(rng, rng.randrange(6)))
            elif j == 3:
                t = check_variants(rng, p)
            else:
                t = mutate58(rng, b58check(p))
            if rng.randrange(12) == 0:
                t = lookalike(rng, t)
            t = [ord(c) for c in t]
            if rng.randrange(12) == 0 and t:
                t[rng.randrange(len(t))] = rng.choice((0, 0x131, 0x661, 0xFF11, 0x2160, 0xD800, 0x0100 + ord("A"), 0x212A, 0x3131, 0x0431))
            s.op("JB58Dec", t)
        res.append(s)
    return res


# ---------------------------------------------------------------------------------------------- C21, C22: Bech32

def human(rng):
    k = rng.randrange(12)
    if k < 3:
        return rng.choice(("bc", "tb", "bcrt", "ltc", "a"))
    if k == 3:
        return "".join(chr(rng.choice([c for c in range(33, 127) if not 65 <= c <= 90])) for _ in range(rng.randrange(1, 84)))
    if k == 4:
        return rng.choice(("1", "11", "1a1", "a1", "1" * 20, "!", "~", "~!", "a1b1c", "q1p"))
    if k == 5:      # digits and punctuation: no letter anywhere
        return "".join(rng.choice("0123456789!?-_.@[`{") for _ in range(rng.randrange(1, 12)))
    if k == 6:
        return "".join(rng.choice("az1@[`{!~^_") for _ in range(rng.choice((1, 2, 82, 83, 40))))
    if k == 7:
        return "x" * rng.choice((1, 82, 83, 50))
    return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(rng.randrange(1, 20)))


def bad_human(rng, h):
    k = rng.randrange(9)
    if k == 0:
        return ""
    if k == 1:
        return "y" * rng.choice((84, 85, 90, 91, 200))
    i = rng.randrange(len(h))
    if k == 2:
        return h[:i] + rng.choice(" \x00\x1f\x20\x7f\x80\xe9") + h[i + 1:]
    if k == 3:
        return h[:i] + rng.choice("AZMQ") + h[i + 1:]
    if k == 4:
        return h.upper()
    if k == 5:
        return h[:i] + chr(rng.choice((0x131, 0x212A, 0x17F, 0xFF41, 0x430, 0x130, 0xDF))) + h[i:]
    if k == 6:
        return h + "Z"
    return h


def ngroups(rng, h):
    room = 90 - len(h) - 7
    k = rng.randrange(8)
    if k == 0:
        return max(0, room + rng.randrange(-2, 3))
    if k == 1:
        return rng.randrange(4)
    return rng.randrange(max(1, room + 1))


def groups_of(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return [rng.choice((0, 31))] * n
    if k == 1:
        return [rng.choice((0, 31, 16, 15)) for _ in range(n)]
    return [rng.randrange(32) for _ in range(n)]


def mutate32(rng, t):
    k = rng.randrange(20)
    i = rng.randrange(len(t)) if t else 0
    if not t:
        return "1"
    if k == 0:
        return t.upper()
    if k == 1:      # mixed case
        return t[:i] + t[i:].upper()
    if k == 2:
        return t[:i].upper() + t[i:]
    if k == 3:
        return t[:i] + t[i].upper() + t[i + 1:]
    if k == 4:
        t = t.upper()
        return t[:i] + t[i].lower() + t[i + 1:]
    if k < 8:
        return t[:i] + rng.choice(B32) + t[i + 1:]
    if k == 8:
        return t[:i] + rng.choice("1bio1BIO") + t[i + 1:]
    if k == 9 and rng.randrange(3):
        return lookalike(rng, t if rng.randrange(2) else t.upper())
    if k == 9:
        return t[:i] + chr(rng.choice((0, 32, 127, 128, 0x212A, 0x130, 0x131, 0x17F, 0xFF11, 0xD835, 0x661, ord(t[i]) + 256, ord(t[i]) + 128))) + t[i + 1:]
    if k == 10:
        return t[:i] + t[i + 1:]
    if k == 11:
        return t[:i] + rng.choice(B32 + "1") + t[i:]
    if k == 12 and len(t) > 1:
        i = rng.randrange(len(t) - 1)
        return t[:i] + t[i + 1] + t[i] + t[i + 2:]
    if k == 13:
        return t.replace("1", "", 1) if rng.randrange(2) else t.replace("1", "")
    if k == 14:      # the known weakness: insertion of q before a final p is accepted
        return t[:-1] + "q" * rng.randrange(1, 4) + t[-1]
    if k == 15:
        return rng.choice(("1" + t, t + "1", "11" + t, t + " ", " " + t, t[t.rfind("1"):]))
    if k == 16:
        return t[:rng.randrange(len(t))]
    if k == 17:      # two positions
        j = rng.randrange(len(t))
        t = t[:i] + rng.choice(B32) + t[i + 1:]
        return t[:j] + rng.choice(B32) + t[j + 1:]
    if k == 18:
        return rng.choice(("", "1", "1qqqqqq", "a1", "a1qqqqq", "q" * 8, "11qqqqqq", "é1qqqqqq"))
    return t


def b32text(rng, h, g):
    """The text of the given parts, possibly with another checksum constant."""
    k = rng.randrange(12)
    if k == 0:
        return b32enc(h, g, rng.choice((0x2bc830a3, 0, 2, 1 | 1 << 29, 1 ^ 1 << rng.randrange(30))))
    return b32enc(h, g)


def g_bech32(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "b%d" % k, rng)
        for _ in range(12):
            h = human(rng)
            g = groups_of(rng, ngroups(rng, h))
            j = rng.randrange(12)
            if j < 4:
                if rng.randrange(4) == 0:
                    h = bad_human(rng, h)
                if rng.randrange(6) == 0 and g:
                    g[rng.randrange(len(g))] = rng.choice((32, 33, -1, -128, 127, 64, -32))
                s.op("B32Enc", [ord(c) for c in h], g)
                continue
            if j < 7:
                t = b32enc(h, g)
                if rng.randrange(3) == 0:
                    t = t.upper()
            elif j == 7:
                h2 = bad_human(rng, h)
                t = b32text(rng, h2, g)
            elif j == 8:
                t = b32text(rng, h, g)
            else:
                t = mutate32(rng, b32enc(h, g))
            s.op("B32Dec", [ord(c) for c in t])
        res.append(s)
    return res


def g_segwit(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "w%d" % k, rng)
        for i in range(12):
            h = rng.choice(("bc", "tb", "bc", "bcrt")) if rng.randrange(3) else human(rng)
            if rng.randrange(3) and len(h) > 10:
                h = h[:2] if h[:2].strip() else "bc"
            ver = rng.choice((0, 0, 1, 16, rng.randrange(17)))
            ln = rng.choice((2, 3, 20, 32, 39, 40, (k + i) % 39 + 2, rng.randrange(2, 41)))
            prog = blob(rng, ln)
            j = rng.randrange(12)
            if j < 4:
                if rng.randrange(3) == 0:
                    x = rng.randrange(4)
                    if x == 0:
                        ver = rng.choice((-1, 17, 31, 32, 255, 256, 16, 2147483647, -2147483648))
                    elif x == 1:
                        prog = blob(rng, rng.choice((0, 1, 41, 42, 60, 2, 40)))
                    elif x == 2:
                        h = bad_human(rng, h)
                    else:
                        h = "z" * rng.choice((83, 20, 19, 18, 50, 90 - 7 - 1 - 64, 90 - 7 - 1 - 63))
                s.op("SegEnc", [ord(c) for c in h], ver, prog.hex())
                continue
            g = [ver] + to5(prog)
            if j == 4:      # another version, or padding that is not zero
                x = rng.randrange(3)
                if x == 0:
                    g[0] = rng.choice((17, 31, 16, 18))
                else:
                    g[-1] ^= rng.choice((1, 2, 4, 8, 16, rng.randrange(32)))
            elif j == 5:      # superfluous groups
                g += [0] * rng.randrange(1, 4)
                if rng.randrange(4) == 0:
                    g[-1] = rng.randrange(32)
            elif j == 6:      # any number of groups
                g = [rng.randrange(17)] + [rng.choice((0, rng.randrange(32))) for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 63, 64, 65, 66, 67, rng.randrange(70))))]
            elif j == 7:
                g = [rng.randrange(18)] + to5(blob(rng, rng.choice((0, 1, 2, 40, 41, 42))))
            elif j == 8 and len(g) > 1:
                g = g[:-1]
            if len(h) + 7 + len(g) > 90 and rng.randrange(4):
                h = "bc"
            t = b32text(rng, h, g)
            if j >= 9 and rng.randrange(2):
                t = mutate32(rng, t)
            elif rng.randrange(6) == 0:
                t = t.upper()
            s.op("SegDec", [ord(c) for c in t])
        res.append(s)
    return res


# ---------------------------------------------------------------------------------------------- C23, C24: wallets

def index(rng, V):
    k = rng.randrange(8)
    if k == 0:
        return rng.randrange(4)
    if k == 1:
        return 0x80000000 + rng.randrange(-3, 4)
    if k == 2:
        return 0xFFFFFFFF - rng.randrange(3)
    if k == 3:
        return rng.choice((1, 1 << rng.randrange(32), 0x01020304, 0x81020304, 0x80000000 | 1 << rng.randrange(31)))
    if k == 4:
        return V.word()
    return rng.getrandbits(32)


def wallet_key(rng, V):
    k = rng.randrange(5)
    if k == 0:      # zero bytes at the start
        return rng.getrandbits(8 * rng.randrange(1, 32)) or 1
    if k == 1:
        return (rng.getrandbits(256) >> 8 * rng.randrange(4) << 8 * rng.randrange(4)) % (N - 1) + 1
    return V.scalar()


def new_node(s, rng, V, i):
    depth = rng.choice((0, 1, 2, 254, 255, 127, 128, rng.randrange(256)))
    s.op("WNew", i, h32(wallet_key(rng, V)), blob(rng, 32).hex(), depth, "%08x" % index(rng, V), blob(rng, 4).hex())


def g_bip32(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "n%d" % k, rng, nw=3)
        new_node(s, rng, V, 1)
        live = {1}
        for _ in range(rng.randrange(2, 6)):
            j = rng.randrange(8)
            i = rng.randrange(1, 4)
            if j == 0:
                new_node(s, rng, V, i)
                live.add(i)
            elif j == 1 and len(live) > 1:
                s.op("WBlank", i)
                live.discard(i)
                if not live:
                    break
            else:
                src = rng.choice(sorted(live))
                s.op("WChild", i, src, "%08x" % index(rng, V))
                live.add(i)
                if rng.randrange(6) == 0:      # the same child again, elsewhere
                    pass
        res.append(s)
    return res


XPRV_HEADERS = ("0488ade4", "0488b21e", "04358394", "04358394", "0588ade4", "0489ade4", "0488ace4", "0488ade5", "049d7878", "00000000", "ffffffff")


def xprv_payload(rng, V, key=None):
    key = wallet_key(rng, V) if key is None else key
    return bytes.fromhex("0488ade4") + bytes([rng.choice((0, 1, 255, rng.randrange(256)))]) + blob(rng, 4) + rng.choice((blob(rng, 4), b"\x80\0\0\0", b"\0\0\0\1")) \
        + blob(rng, 32) + b"\0" + bytes.fromhex(h32(key))


def g_xprv(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "o%d" % k, rng, nw=2)
        if rng.randrange(3):
            new_node(s, rng, V, 1)
        for _ in range(6):
            i = rng.randrange(1, 3)
            j = rng.randrange(12)
            if j == 0:
                new_node(s, rng, V, i)
            elif j < 3:
                s.op("XprvEnc", i)
            else:
                p = xprv_payload(rng, V)
                if j == 3:
                    p = bytes.fromhex(rng.choice(XPRV_HEADERS)) + p[4:]
                    t = b58check(p)
                elif j == 4:
                    x = rng.randrange(3)
                    if x == 0:
                        p = p[:45] + bytes([rng.choice((1, 2, 3, 0x80, 255))]) + p[46:]
                    else:
                        p = p[:46] + bytes.fromhex(h32(rng.choice((0, N, N + 1, M256 - 1, N - 1, 1, P, N + rng.getrandbits(128)))))
                    t = b58check(p)
                elif j == 5:
                    m = rng.choice((-1, 1, -2, 2, -32))
                    t = b58check(p[:m] if m < 0 else p + blob(rng, m))
                elif j == 6:
                    t = check_variants(rng, p)
                elif j == 7:
                    t = mutate58(rng, b58check(p))
                elif j == 8:      # zero bytes in front of something that is otherwise right
                    t = b58check(rng.choice((bytes(1) + p, bytes(4) + p[4:], bytes(1) + p[:-1], p[1:], blob(rng, 78))))
                else:
                    t = b58check(p)
                s.op("XprvDec", i, [ord(c) & 255 for c in t if ord(c) & 255])
                if rng.randrange(3) == 0:
                    s.op("XprvEnc", i)
        res.append(s)
    return res


# ---------------------------------------------------------------------------------------------- C26: no hidden state

def g_mixed(rng, V, lang, n):
    """Calls of every kind in one session; many short sessions that threads can run at the same time."""
    from gens import g_arith, g_compare, g_field, g_group, g_predicates, g_reciprocal, g_scalar, g_sign, g_sign_hmac, g_verify
    res = []
    kinds = [(g_arith, 6), (g_compare, 3), (g_field, 6), (g_reciprocal, 2), (g_group, 4), (g_predicates, 3), (g_scalar, 3), (g_sign, 4), (g_sign_hmac, 2), (g_verify, 4),
             (g_hashvalue, 3)]
    if lang == "cpp":
        kinds += [(g_stream, 6), (g_b58_encode, 4), (g_b58_decode, 4), (g_bip32, 4), (g_xprv, 4)]
    else:
        kinds += [(g_b58_java, 6), (g_bech32, 6), (g_segwit, 6)]
    for g, w in kinds:
        for t in g(rng, V, lang, max(1, w * n // 40)):
            res.append(t)
    hs = []
    for _ in range(n):
        hs.append(rng.choice((("HashOf", rng.choice(("sha256", "sha256d", "sha512", "ripemd160", "keccak256")), message(rng, rng.randrange(400))),
                              ("MacOf", rng.choice(("sha256", "sha512")), message(rng, rng.randrange(200)), message(rng, rng.randrange(200))))))
    res += sessions(lang, rng, "H", hs)
    rng.shuffle(res)
    for i, t in enumerate(res):
        t.id = "t%d" % i
    return res


# ---------------------------------------------------------------------------------------------- what a call may remember

# Calls that have no effect on the objects of a session, and which of their arguments belong together
PURE_CALLS = {"ESign": ((0,), (1,), (2,)), "ESignHmac": ((0,), (1,)), "EVerify": ((0, 1, 2), (3,), (4,), (5,)),
              "HashOf": ((1,), (0,)), "MacOf": ((1,), (2,), (0,)), "AddrEnc": ((0,), (1,)), "WifEnc": ((0,), (1,), (2,)), "AddrDec": ((0,),), "WifDec": ((0,),),
              "JB58Enc": ((0,),), "JB58Dec": ((0,),), "B32Enc": ((0,), (1,)), "B32Dec": ((0,),), "SegEnc": ((0,), (1,), (2,)), "SegDec": ((0,),)}


def one_off(rng, a):
    """An argument that differs little."""
    if isinstance(a, str) and len(a) >= 2 and len(a) % 2 == 0:
        b = bytearray.fromhex(a)
        b[rng.choice((0, -1, rng.randrange(len(b))))] ^= 1 << rng.randrange(8)
        return b.hex()
    if isinstance(a, list) and a:
        b = list(a)
        i = rng.choice((0, -1, rng.randrange(len(b))))
        if all(0 <= x < 32 for x in a):
            b[i] ^= 1
        else:
            b[i] = ord(rng.choice("qpzr89acde23")) if b[i] != 49 else 50
        return b
    return a


def twin(rng, a):
    """A different argument for which the usual hash functions and checksums are the same: sums and exclusive ors of the words or bytes, in any
    order, and Java's polynomial of 31."""
    if isinstance(a, str) and len(a) >= 4 and len(a) % 2 == 0:
        b = bytearray.fromhex(a)
        width = 4 if len(b) % 4 == 0 and len(b) >= 8 and rng.randrange(3) else 1
        v = [int.from_bytes(b[i:i + width], "big") for i in range(0, len(b), width)]
        m = 1 << 8 * width
        i, j = rng.sample(range(len(v)), 2)
        how = rng.randrange(5)
        if how == 0:                       # the sum
            x = rng.choice((1, m // 2, rng.randrange(1, m)))
            v[i], v[j] = (v[i] + x) % m, (v[j] - x) % m
        elif how == 1:                     # the exclusive or
            x = rng.choice((1, m // 2, m - 1, rng.randrange(1, m)))
            v[i] ^= x
            v[j] ^= x
        elif how == 2 and v[i] != v[j]:    # any function that does not look at the order
            v[i], v[j] = v[j], v[i]
        else:                              # Arrays.hashCode, from either end
            i = rng.randrange(len(v) - 1)
            i, j = rng.choice(((i, i + 1), (i + 1, i)))
            x = rng.choice((1, -1))
            if width == 1 and not (0 <= v[i] + x < 256 and (v[i] < 128) == (v[i] + x < 128) and 0 <= v[j] - 31 * x < 256 and (v[j] < 128) == (v[j] - 31 * x < 128)):
                x = -x
            v[i], v[j] = (v[i] + x) % m, (v[j] - 31 * x) % m
        return b"".join(x.to_bytes(width, "big") for x in v).hex()
    if isinstance(a, list) and len(a) > 3:
        b = list(a)
        if all(0 <= x < 32 for x in a):
            i, j = rng.sample(range(len(a)), 2)
            b[i], b[j] = b[j], b[i]
        else:
            for _ in range(50):            # String.hashCode
                i = rng.randrange(len(a) - 1)
                x = rng.choice((1, -1))
                if 33 <= a[i] + x <= 126 and 33 <= a[i + 1] - 31 * x <= 126:
                    b[i], b[i + 1] = a[i] + x, a[i + 1] - 31 * x
                    break
        return b
    return one_off(rng, a)


def g_history(rng, V, lang, n):
    """Each call again after calls that differ from it in one argument: what it does must not depend on what went before."""
    from gens import g_reciprocal, g_sign, g_sign_hmac, g_verify, some_triple, some_point, scalar_any, fpair
    src = [(g_sign, n), (g_sign_hmac, n), (g_verify, n), (g_sha256, 3 * n), (g_sha512, 3 * n), (g_ripemd160, 2 * n), (g_keccak256, 2 * n)]
    src += [(g_b58_encode, n), (g_b58_decode, n)] if lang == "cpp" else [(g_b58_java, n), (g_bech32, n), (g_segwit, n)]
    pool = {}
    for g, k in src:
        for t in g(rng, V, lang, k):
            if t.only:
                continue
            for name, args, extra in t.ops:
                if name in PURE_CALLS:
                    pool.setdefault(name, []).append((args, extra))
    res = []
    for name in sorted(pool):
        calls = pool[name]
        rng.shuffle(calls)
        m = {"EVerify": n, "ESign": n, "ESignHmac": n // 2}.get(name, n)
        for k in range(max(1, m)):
            (a, ea), (b, eb) = rng.choice(calls), rng.choice(calls)
            s = S(lang, "%s%d" % (name, k), rng)
            seq = [(a, ea)]
            for group in PURE_CALLS[name]:
                c = list(a)
                for i in group:
                    c[i] = b[i]
                if name in ("HashOf", "MacOf") and group == (0,):
                    c[0] = rng.choice(("sha256", "sha512"))
                seq.append((c, ea))
                if rng.randrange(2):
                    seq.append((a, ea))
                i = group[0]
                if name in ("HashOf", "MacOf") and group == (0,):
                    continue
                for other in (one_off, twin, twin):
                    c = list(a)
                    c[i] = other(rng, a[i])
                    if name in ("ESign", "ESignHmac") and not 0 < int(c[0], 16) < N:
                        continue
                    seq.append((c, ea))
                    if other is one_off or rng.randrange(2):
                        seq.append((a, ea))
            seq += [(b, eb), (a, ea), (a, ea)]
            for c, e in seq:
                s.op(name, *c, extra=e)
            res.append(s)
    for k in range(n):
        s = S(lang, "P%d" % k, rng, nu=2, np=2)
        a, b = some_triple(rng, V, some_point(rng, V)), some_triple(rng, V, some_point(rng, V))
        x, y = scalar_any(rng, V), scalar_any(rng, V)
        x1, x2, x3 = (int(twin(rng, h32(x)), 16) for _ in range(3))
        for q, m in ((a, x), (a, y), (b, x), (a, x)) if k % 2 else ((a, x), (b, x), (a, x), (a, x1), (a, x2), (a, x3)):
            s.op("PSet", 1, *[h32(c) for c in q])
            s.op("USet", 1, h32(m))
            s.op("PMul", 1, 1)
        m = rng.choice((N, P))
        v = V.scalar() or 1
        for y in (v, v, *(int(twin(rng, h32(v)), 16) for _ in range(3)), v):
            if 0 < y < m:
                s.op("USet", 1, h32(y))
                s.op("USet", 2, h32(m))
                s.op("UInv", 1, 1, 2)
        for q, m in ((a, b), (a, a), (b, b), (b, a), (a, b)):
            s.op("PSet", 1, *[h32(c) for c in q])
            s.op("PSet", 2, *[h32(c) for c in m])
            s.op("PAdd", 1, 2)
            s.op("PTwice", 1)
            s.op("PNormalize", 1)
        if lang == "cpp":
            for m in (V.scalar(), V.scalar(), x or 1):
                if 0 < m < N:
                    for _ in range(2):
                        s.op("USet", 2, h32(m))
                        s.op("PPublic", 2, 2)
        res.append(s)
    if lang == "cpp":
        for k in range(n):
            s = S(lang, "W%d" % k, rng, nw=3)
            ka, kb = wallet_key(rng, V), wallet_key(rng, V)
            ca, cb = blob(rng, 32).hex(), blob(rng, 32).hex()
            i, j = "%08x" % index(rng, V), "%08x" % index(rng, V)
            for key, cc, ix in ((ka, ca, i), (ka, cb, i), (kb, ca, i), (ka, ca, j), (ka, ca, i)):
                s.op("WNew", 1, h32(key), cc, rng.choice((0, 3, 255)), blob(rng, 4).hex(), blob(rng, 4).hex())
                s.op("WChild", 2, 1, ix)
                s.op("XprvEnc", 1)
                s.op("XprvEnc", 2)
            p, q = xprv_payload(rng, V), xprv_payload(rng, V)
            bad = mutate58(rng, b58check(p))
            for t in (b58check(p), b58check(q), bad, b58check(p), b58check(p)):
                s.op("XprvDec", 3, [ord(c) & 255 for c in t if ord(c) & 255])
            res.append(s)
    for i, t in enumerate(res):
        t.id = "h%d" % i
    return res
