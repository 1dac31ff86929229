"""Generators of calls: constants and helpers, malformed arguments, the assembly routines."""
import vlib
import gens
import gens2
from refmath import N as ORDER, P
from vlib import Tr

HISTORIES = ("g_arith", "g_reciprocal", "g_field", "g_group", "g_scalar", "g_sign", "g_sign_hmac", "g_verify", "g_sha256", "g_stream", "g_sha512", "g_ripemd160",
             "g_keccak256", "g_hashvalue", "g_b58_encode", "g_b58_decode", "g_b58_java", "g_bech32", "g_segwit", "g_bip32", "g_xprv", "g_mixed")
JAVA_ONLY = {"g_b58_java", "g_bech32", "g_segwit"}
CPP_ONLY = {"g_stream", "g_b58_encode", "g_b58_decode", "g_bip32", "g_xprv"}


def g_constants(rng, V, lang, n):
    """Sessions of every kind, with a look at the constants before, in between and afterwards."""
    java = lang == "java"
    look = "KConstsJava" if java else "KConsts"
    res = [Tr("first").op(look)]
    for g in HISTORIES:
        if g in (CPP_ONLY if java else JAVA_ONLY):
            continue
        f = getattr(gens, g, None) or getattr(gens2, g)
        for i, t in enumerate(f(rng, V, lang, max(1, n // 20))[:n]):
            t.id = "%s.%d.%s" % (g[2:], i, t.id)
            if i % 2:
                t.ops.insert(rng.randrange(len(t.ops) + 1), (look, [], []))
            t.op(look)
            res.append(t)
    return res


def g_helpers(rng, V, lang, n):
    res = []
    s = Tr("digits")
    for c in list(range(-3, 300)) + [2 ** k + d for k in range(8, 31) for d in (48, 57, 65, 70, 97, 102, 103)] + [-2 ** 31, 2 ** 31 - 1]:
        s.op("KHexDigit", c)
    res.append(s)
    s = Tr("stores")
    for k in range(32):
        for x in (1 << k, (1 << k) - 1, 0xFFFFFFFF ^ (1 << k)):
            s.op("KStore", "%08x" % x)
    for _ in range(60):
        s.op("KStore", rng.randbytes(4).hex())
    res.append(s)
    for k in range(n):
        s = Tr("copies%d" % k)
        for _ in range(6):
            m = rng.choice((0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 200))
            if m == 0:
                s.op("KCopy", "", 0, 0, 0)
                continue
            buf = bytes(range(m)) if rng.randrange(2) else rng.randbytes(m)
            c = rng.choice((0, 1, m, m // 2, rng.randrange(m + 1), max(0, m - 1)))
            to = rng.choice((0, m - c, rng.randrange(m - c + 1)))
            frm = rng.choice((0, m - c, rng.randrange(m - c + 1), min(m - c, to + 1), max(0, to - 1)))
            s.op("KCopy", buf.hex(), to, frm, c)
        res.append(s)
    return res


NEED = {"sign": (8, -1, 8, 8, 8), "signHmac": (8, -1, 8, 8), "verify": (24, -1, 8, 8), "hashBytes": (32,), "uBytes": (32,),
        "hmac256": (-1, -1), "hmac512": (-1, -1), "b32enc": (-1, -1), "segenc": (-1, -1)}
ONE = ("sha256", "sha256d", "sha512", "ripemd160", "keccak256", "hashText", "hashCompare", "b58enc", "b58dec", "b32dec", "segdec", "uHex")


def g_refuse(rng, V, lang, n):
    """Calls in which at least one argument is null or has a wrong length: each argument alone, all lengths; and combinations."""
    res = []
    for fn, need in list(NEED.items()) + [(f, (-1,)) for f in ONE]:
        good = [8 if x == -1 else x for x in need]
        calls = []
        for i, x in enumerate(need):
            calls.append(good[:i] + [-1] + good[i + 1:])
            if x >= 0:
                calls += [good[:i] + [m] + good[i + 1:] for m in list(range(0, 41)) + [48, 64, 72, 96, 120] if m != x]
        for _ in range(n if len(need) > 1 else 0):
            c = [rng.choice((g, g, -1, rng.randrange(0, 40)) if need[i] >= 0 else (g, -1)) for i, g in enumerate(good)]
            if any(v == -1 or (need[i] >= 0 and v != need[i]) for i, v in enumerate(c)):
                calls.append(c)
        for k in range(0, len(calls), 40):
            s = Tr("%s%d" % (fn, k), nu=1)
            s.op("USet", 1, "%064x" % V.u())
            for c in calls[k:k + 40]:
                s.op("JRefuse", fn, c)
            res.append(s)
    return res


ASM = {"add": (32, 32), "subtract": (32, 32), "shiftLeft1": (32, 0), "shiftRight1": (32, 0), "replace": (32, 32), "swap": (32, 32), "equalTo": (32, 32), "lessThan": (32, 32),
       "multiply": (32, 32), "step0": (64, 0), "step1": (32, 0), "step2": (64, 64)}


def words(rng, V, size):
    """Numbers with words that make carries start, run and end."""
    k = rng.randrange(6)
    if k == 0:
        return sum(rng.choice((0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF)) << (32 * i) for i in range(size // 4))
    if k == 1:
        return sum(rng.choice((0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 2, 2 ** 63 - 1)) << (64 * i) for i in range(size // 8))
    if k == 2:
        return rng.choice((0, 1, 2 ** (8 * size) - 1, 2 ** (8 * size - 1), 1 << rng.randrange(8 * size), (1 << rng.randrange(8 * size)) - 1))
    if k == 3:
        return rng.getrandbits(8 * size)
    if k == 4:
        return V.u() % (1 << (8 * size)) if size == 32 else V.u() * V.u()
    m = rng.choice((P, P - 1, ORDER, 2 ** 32 + 977, 2 ** 256 + 2 ** 32 + 977, P * P, P * (P - 1), P << 256)) + rng.choice((0, 0, 1, -1, 2 ** 32, -2 ** 32))
    return m % (1 << (8 * size))


def g_asm(rng, V, lang, n):
    res = []
    for k in range(n):
        s = Tr("a%d" % k)
        for fn, (nx, ny) in ASM.items():
            for _ in range(2):
                x = words(rng, V, nx)
                y = words(rng, V, ny) if ny else 0
                if ny and nx == ny:
                    r = rng.randrange(8)
                    if r == 0:
                        y = x
                    elif r == 1:
                        y = x ^ (1 << rng.randrange(8 * nx))
                    elif r == 2:
                        y = 2 ** (8 * nx) - 1 - x
                    elif r == 3:
                        y = (2 ** (8 * nx) - x) % 2 ** (8 * nx)
                    elif r == 4:
                        y = (x + rng.choice((1, -1, 2 ** 32, -2 ** 32, 2 ** 64, -2 ** 64, 2 ** 128))) % 2 ** (8 * nx)
                s.op("AsmCall", fn, "%0*x" % (2 * nx, x), "%0*x" % (2 * ny, y) if ny else "", rng.randrange(16))
        res.append(s)
    return res
