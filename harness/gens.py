"""Generators: for each property, scripts of public calls. g(rng, V, lang, n) returns a list of traces; n scales the amount."""
from refmath import *
from vlib import Tr


class S(Tr):
    """A script under construction, in the dialect of one language."""
    def __init__(self, lang, tid, rng, **kw):
        kw.setdefault("align", rng.randrange(16))
        kw.setdefault("temp_first", rng.randrange(2))
        super().__init__(tid, **kw)
        self.java = lang == "java"
        self.rng = rng
        self.w = {}          # last value put into each register, where known

    # Three-operand operations: in C++ the first operand is the destination.
    def _three(self, op, copy, z, x, y, *rest, extra=()):
        if not self.java:
            if z == y:
                x, z = z, x
                # The destination must not be the second operand
            if z == y:
                return
            if z != x:
                copy(z, x)
            x = z
        self.op(op, z, x, y, *rest, extra=extra)

    def uset(self, z, v):
        self.op("USet", z, h32(v))

    def ucopy(self, z, x):
        if z != x:
            self.op("UCopy", z, x)

    def fset(self, z, v):
        self.op("FSet", z, h32(v))

    def fcopy(self, z, x):
        self.op("FReplace", z, x, 1)

    def u3(self, op, z, x, y, *rest):
        ex = ("d",) if rest == (1,) and self.rng.randrange(3) == 0 else ()
        self._three(op, self.ucopy, z, x, y, *rest, extra=ex)

    def f3(self, op, z, x, y):
        self._three(op, self.fcopy, z, x, y)

    def u2(self, op, z, x, *rest):
        ex = ()
        if not self.java and z != x:
            self.ucopy(z, x)
            x = z
        if op == "UShr1" and rest == (1,) and self.rng.randrange(3) == 0:
            ex = ("d",)
        self.op(op, z, x, *rest, extra=ex)

    def f2(self, op, z, x):
        if not self.java and z != x:
            self.fcopy(z, x)
            x = z
        self.op(op, z, x)

    def pset(self, z, t):
        self.op("PSet", z, h32(t[0]), h32(t[1]), h32(t[2]))


def chars(s):
    return [ord(c) for c in s]


# ---------------------------------------------------------------------------------------------- C01 - C03: integers

def partner(rng, V, x):
    """A second operand that makes carries or borrows of x + y and x - y run far or stop at a chosen place."""
    k = rng.randrange(8)
    if k == 0:
        return (M256 - x + rng.randrange(-2, 3)) % M256
    if k == 1:
        return (x + rng.randrange(-2, 3)) % M256
    if k == 2:
        return ~x % M256
    if k == 3:      # complement in some words: carries run exactly through them
        i, j = sorted((rng.randrange(9), rng.randrange(9)))
        m = (1 << 32 * j) - (1 << 32 * i)
        return (~x & m) | (V.u() & ~m & (M256 - 1))
    if k == 4:      # equal in some words: borrows run exactly through them
        i, j = sorted((rng.randrange(9), rng.randrange(9)))
        m = (1 << 32 * j) - (1 << 32 * i)
        return (x & m) | (V.u() & ~m & (M256 - 1))
    if k == 5:
        return 1 << rng.randrange(256)
    return V.u()


def g_arith(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "a%d" % k, rng, nu=4)
        for _ in range(16):
            x = V.u()
            y = partner(rng, V, x)
            a, b = rng.sample((1, 2, 3, 4), 2)
            s.uset(a, x)
            s.uset(b, y)
            for _ in range(rng.randrange(1, 4)):
                op = rng.choice(("UAdd", "USub", "UAdd", "USub", "UShl1", "UShr1"))
                z = rng.choice((a, a, b, 1, 2, 3, 4))
                en = rng.choice((0, 1, 1, 1))
                if op == "UShl1":
                    s.u2(op, z, rng.choice((a, b)))
                elif op == "UShr1":
                    s.u2(op, z, rng.choice((a, b)), en)
                else:
                    p, q = (a, b) if rng.randrange(4) else (b, a)
                    if s.java and rng.randrange(12) == 0:
                        q = p
                    s.u3(op, z, p, q, en)
        res.append(s)
    return res


def near(rng, x):
    """x, or a number that differs from it in one place."""
    k = rng.randrange(6)
    if k == 0:
        return x
    if k == 1:
        return x ^ 1 << rng.randrange(256)
    if k == 2:      # one word
        i = rng.randrange(8)
        return x & ~(0xFFFFFFFF << 32 * i) | rng.choice((0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, rng.getrandbits(32))) << 32 * i
    if k == 3:      # two words, in opposite directions
        i, j = rng.sample(range(8), 2)
        return (x + (1 << 32 * i) - (1 << 32 * j)) % M256
    if k == 4:      # two words exchanged
        i, j = rng.sample(range(8), 2)
        a, b = x >> 32 * i & 0xFFFFFFFF, x >> 32 * j & 0xFFFFFFFF
        return x - (a << 32 * i) - (b << 32 * j) + (a << 32 * j) + (b << 32 * i)
    return (x + rng.choice((1, -1))) % M256


def hexcase(rng, h):
    return "".join(c.upper() if rng.randrange(2) else c for c in h)


def g_compare(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "c%d" % k, rng, nu=4)
        for _ in range(16):
            x = V.u()
            a, b = rng.sample((1, 2, 3, 4), 2)
            s.uset(a, x)
            s.uset(b, near(rng, x) if rng.randrange(5) else V.u())
            s.op("UCompare", a, b)
            for _ in range(rng.randrange(1, 4)):
                j = rng.randrange(8)
                if j < 2:
                    s.op("UReplace", a, b, rng.randrange(2))
                elif j < 4:
                    s.op("USwap", a, b, rng.randrange(2))
                elif j == 4:
                    s.op("UToBytes", rng.choice((a, b)))
                elif j == 5:
                    s.op("UFromBytes", rng.choice((a, b)), h32(V.u()))
                elif j == 6:
                    if rng.randrange(3) == 0 and s.java:
                        t = chars(hexcase(rng, h32(V.u())))
                        m = rng.randrange(5)
                        if m == 0:
                            t = t[1:]
                        elif m == 1:
                            t.append(48)
                        else:
                            t[rng.randrange(64)] = rng.choice((47, 58, 64, 71, 96, 103, 32, 45, 43, 0xFF11, 0x661, 0xFF21, 0xFF41, 0x966, rng.choice(t) | rng.choice((0x80, 0x100, 0x1000, 0x8000))))
                        s.op("JUFromHex", a, t)
                    else:
                        s.op("UFromHex", rng.choice((a, b)), hexcase(rng, h32(V.u())).encode().hex())
                elif s.java:
                    if rng.randrange(4) == 0:
                        s.op("JUFromBytes", a, "00" * rng.choice((0, 1, 31, 32, 33, 64)) if rng.randrange(2) else h32(V.u()) + rng.choice(("", "00")))
                    else:
                        s.op("UToHex", a)
            if rng.randrange(4) == 0:
                s.op("UCompare", b, a)
            if s.java and rng.randrange(8) == 0:
                s.op("UCompare", a, a)
        res.append(s)
    return res


def gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def euclid_steps(x, m):
    a, b, n = m, x, 0
    while a != 1 and n < 520:
        if b & 1 == 0:
            b >>= 1
        if b & 1:
            if a > b:
                a, b = b, a
            b -= a
        n += 1
    return n


def slow(rng, m, tries=60):
    """An argument whose reciprocal takes many steps of the binary algorithm: nearly one for every bit of both numbers."""
    best = (0, 1)
    for _ in range(tries):
        b = rng.randrange(1, 14)
        x = (rng.getrandbits(b) | 1) << max(0, m.bit_length() - b - rng.randrange(2))
        if 0 < x < m and gcd(x, m) == 1:
            best = max(best, (euclid_steps(x, m), x))
    return best[1]


def g_reciprocal(rng, V, lang, n):
    res = []
    mods = [M256 - 1, M256 - 3, 3, 5, 7, 15, N, P, M256 // 2 + 1, M256 // 2 - 1, (1 << 128) + 1, (1 << 32) - 1, (1 << 32) + 1,
            (1 << 224) - 1, 3**161, 255, 65537]
    for k in range(n):
        s = S(lang, "i%d" % k, rng, nu=4)
        for _ in range(8):
            m = rng.choice(mods) if rng.randrange(2) else V.u() | 1
            if m < 3:
                m = 3
            c = rng.randrange(6)
            x = (0, 1, m - 1, m // 2, m // 2 + 1, 2)[c] if rng.randrange(4) == 0 else (m - 1 - rng.getrandbits(8)) % m if rng.randrange(4) == 0 else V.u() % m
            if rng.randrange(6) == 0:
                x = slow(rng, m)
            a, b, z = rng.sample((1, 2, 3, 4), 3)
            s.uset(a, x)
            s.uset(b, m)
            if x and gcd(x, m) != 1:
                if not s.java:
                    continue
                s.op("JUInv", rng.choice((a, b, z)), a, b)
                continue
            if s.java:
                s.op("UInv", rng.choice((a, b, z)), a, b)
            else:
                s.op("UInv", a, a, b)
            if s.java and rng.randrange(5) == 0:      # arguments which the documentation excludes
                bad = rng.randrange(4)
                m2 = (m + 1 if bad == 0 and m + 1 < M256 else 1 if bad == 1 else 0 if bad == 2 else m)
                s.uset(b, m2)
                s.uset(a, rng.choice((m2, (m2 + 1) % M256, M256 - 1)) if bad == 3 else rng.choice((0, 1)))
                s.op("JUInv", z, a, b)
        res.append(s)
    return res


# ---------------------------------------------------------------------------------------------- C04: field

def fpair(rng, V):
    """Factors whose product is hard to reduce, or sums that just reach the modulus."""
    k = rng.randrange(12)
    a = V.fe()
    if k < 5 and a:
        # a * b = t modulo p, with t close to 0 or to p: the quotient estimate is at its worst
        t = rng.choice((rng.randrange(64), rng.getrandbits(33), (1 << 32) + 977 + rng.randrange(-3, 4), rng.getrandbits(64),
                        rng.getrandbits(rng.randrange(1, 257)), -1 - rng.getrandbits(rng.randrange(1, 65))))
        return a, t * inv(a, P) % P
    if k == 5:
        return P - 1 - rng.getrandbits(rng.randrange(1, 34)), P - 1 - rng.getrandbits(rng.randrange(1, 34))
    if k == 6:      # product close to a multiple of 2^256 or with a small high half
        i = rng.randrange(1, 256)
        return (1 << i) % P, ((1 << 256 - i) + rng.randrange(-2, 3)) % P
    if k == 7:
        return a, (P - a + rng.randrange(-2, 3)) % P
    if k == 8:
        return a, (a + rng.randrange(-2, 3)) % P
    if k == 9:
        i, j = sorted((rng.randrange(257), rng.randrange(257)))
        return ((1 << j) - (1 << i)) % P, V.fe()
    return a, V.fe()


def g_field(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "f%d" % k, rng, nu=1, nf=4)
        for _ in range(14):
            x, y = fpair(rng, V)
            a, b = rng.sample((1, 2, 3, 4), 2)
            s.fset(a, x)
            s.fset(b, y)
            for _ in range(rng.randrange(1, 4)):
                op = rng.choice(("FMulA", "FMulA", "FMulA", "FAddA", "FSubA", "FSqrA", "FDblA", "x"))
                z = rng.choice((a, a, b, 1, 2, 3, 4))
                if op in ("FSqrA", "FDblA"):
                    s.f2(op, z, rng.choice((a, b)))
                elif op == "x":
                    j = rng.randrange(6)
                    if j == 0:
                        s.op("FReplace", a, b, rng.randrange(2))
                    elif j == 1:
                        s.op("FCompare", a, b)
                    elif s.java:
                        s.f3("FMulA", z, a, a)
                    elif j == 2:
                        s.op("FToBytes", a)
                    elif j == 3:
                        v = (P + rng.choice((0, 1, -1, 2, rng.getrandbits(32)))) % M256 if rng.randrange(2) else V.u()
                        if rng.randrange(2):
                            s.uset(1, v)
                            s.op("FFromU", z, 1)
                        else:
                            s.op("FFromHex", z, hexcase(rng, h32(v % P)).encode().hex())
                    elif j == 4:
                        s.op("UFromF", 1, a)
                    else:
                        s.f2("FInvA", z, a)
                else:
                    p, q = (a, b) if rng.randrange(4) else (b, a)
                    s.f3(op, z, p, q)
        res.append(s)
    return res


def g_field_root(rng, V, lang, n):
    """Squares that end close to 0 or to the modulus: x = sqrt(t)."""
    res = []
    for k in range(n):
        s = S(lang, "q%d" % k, rng, nf=2)
        for _ in range(16):
            t = rng.choice((rng.getrandbits(rng.randrange(1, 40)), -rng.getrandbits(rng.randrange(1, 40)), rng.getrandbits(64))) % P
            x = pow(t, (P + 1) // 4, P)
            s.fset(1, rng.choice((x, P - x)) % P)
            s.f2("FSqrA", rng.choice((1, 2)), 1)
            x = (t >> 1) if t % 2 == 0 else (t + P) >> 1
            s.fset(2, x % P)
            s.f2("FDblA", rng.choice((1, 2)), 2)
        res.append(s)
    return res


# ---------------------------------------------------------------------------------------------- C05: frame

def g_frame(rng, V, lang, n):
    """Calls of all kinds on neighbouring registers, in memory with every alignment."""
    res = []
    for k in range(n):
        s = S(lang, "m%d" % k, rng, nu=3, nf=3, np=2, align=k % 16, temp_first=k % 2)
        for i in (1, 2, 3):
            s.uset(i, V.u())
            s.fset(i, V.fe())
        a = gmul(V.scalar(), G)
        s.pset(1, triple(a, V.fe() or 1))
        s.pset(2, triple(gmul(V.scalar(), G)))
        for _ in range(26):
            j = rng.randrange(22)
            a, b, c = (rng.randrange(1, 4) for _ in range(3))
            b2 = a % 3 + 1
            en = rng.randrange(2)
            if j < 2:
                s.u3("UAdd" if j else "USub", a, b, c if s.java else b % 3 + 1, en)
            elif j == 2:
                s.u2("UShl1", a, b)
            elif j == 3:
                s.u2("UShr1", a, b, en)
            elif j == 4:
                s.op("UReplace", a, b, en)
            elif j == 5:
                s.op("USwap", a, b, en)
            elif j == 6:
                s.op("UCompare", a, b)
            elif j == 7:
                s.uset(b2, V.scalar())
                s.uset(b2 % 3 + 1, N)
                if s.java:
                    s.op("UInv", a, b2, b2 % 3 + 1)
                else:
                    s.op("UInv", b2, b2, b2 % 3 + 1)
            elif j < 11:
                s.f3(("FAddA", "FSubA", "FMulA")[j - 8], a, b, c if s.java else b % 3 + 1)
            elif j < 13:
                s.f2(("FDblA", "FSqrA")[j - 11], a, b)
            elif j == 13:
                s.op("FReplace", a, b, en)
            elif j == 14:
                s.op("FCompare", a, b)
            elif j == 15:
                s.op("PAdd", rng.randrange(1, 3), rng.randrange(1, 3))
            elif j == 16:
                s.op("PTwice", rng.randrange(1, 3))
            elif j == 17:
                s.op("PNormalize", rng.randrange(1, 3))
            elif j == 18:
                s.op("PReplace", rng.randrange(1, 3), rng.randrange(1, 3), en)
            elif j == 19:
                s.op("PIsZero", rng.randrange(1, 3))
            elif j == 20:
                x = rng.randrange(1, 3)
                s.op("PNormalize", x)
                s.op("POnCurve", x)
            elif k % 4 == 0 and len(s.ops) > 25:
                s.op("PMul", rng.randrange(1, 3), a)
            else:
                s.op("UToBytes", a)
        if k % 8 == 0:
            s.op("PMul", 1, 1)
        if k % 8 == 4:
            d, z = V.scalar(), V.u()
            s.op("ESign", h32(d), hz(z), h32(rng.choice((V.scalar(), V.scalar(), 0, N))))
            s.op("EVerifyOwn", h32(d), hz(z))
            q = gmul(d, G)
            s.op("EVerify", h32(q[0]), h32(q[1]), h32(1), hz(z), h32(V.u()), h32(V.scalar()))
            s.op("ESignHmac", h32(d), hz(z))
        res.append(s)
    return res


# ---------------------------------------------------------------------------------------------- C06 - C08: points

def cube_root(v):
    """A cube root of v modulo P, or None. (P is 7 modulo 9.)"""
    v %= P
    c = pow(v, (P + 2) // 9, P)
    return c if pow(c, 3, P) == v else None


def _remarkable():
    """Points at which some intermediate value of the curve equation is close to 0 or to the modulus."""
    res = []
    def at_x(x):
        q = lift_x(x % P)
        if q:
            res.extend((q, neg(q)))
    for d in range(-9, 10):
        for y in (d % P, (P + 1) // 2 + d):
            c = cube_root(y * y - 7)                  # y is small
            if c is not None:
                res.extend(((c, y), (c * BETA % P, y), (c * BETA * BETA % P, y)))
        at_x(d % P)
        c = cube_root(d)                              # x^3 is small
        if c is not None:
            for b in (1, BETA, BETA * BETA % P):
                at_x(c * b)
        for r in (pow(d % P, (P + 1) // 4, P),):      # x^2 is small
            if r * r % P == d % P:
                at_x(r)
                at_x(-r)
        y = pow(d % P, (P + 1) // 4, P)               # y^2 is small
        if y * y % P == d % P:
            c = cube_root(d - 7)
            if c is not None:
                for b in (1, BETA, BETA * BETA % P):
                    res.extend(((c * b % P, y), (c * b % P, -y % P)))
    for x in (N, N - 1, N + 1, N + 2, P - N, P - N - 1, M256 - P, M256 - P - 1, 1 << 255, (1 << 255) - 1, 1 << 128, 1 << 32, 1 << 224):
        at_x(x)
    return sorted({q for q in res if (q[1] * q[1] - q[0]**3 - 7) % P == 0})


REMARKABLE = _remarkable()


def some_point(rng, V):
    """A finite group element, some with small or otherwise remarkable coordinates."""
    k = rng.randrange(8)
    if k > 5:
        return rng.choice(REMARKABLE)
    if k == 0:
        x = rng.randrange(1, 200)
    elif k == 1:
        x = P - rng.randrange(1, 200)
    elif k == 2:
        x = V.fe()
    else:
        return gmul(V.scalar(), G)
    while True:
        q = lift_x(x % P)
        if q:
            return neg(q) if rng.randrange(2) else q
        x += 1


def some_z(rng, V, q):
    """A denominator; some make a projective coordinate of q remarkable."""
    k = rng.randrange(8)
    if k < 2:
        return 1
    if k == 2:
        return P - 1
    if k == 3 and q:
        return rng.randrange(1, 9) * inv(rng.choice(q) or 1, P) % P
    if k == 4 and q:
        return (P - rng.randrange(1, 9)) * inv(rng.choice(q) or 1, P) % P
    z = V.fe()
    return z or 1


def some_triple(rng, V, q):
    if q is None:
        return triple(None, y0=rng.choice((1, P - 1, 2, V.fe() or 1)))
    return triple(q, some_z(rng, V, q))


def related(rng, V, q):
    """Another group element in some relation to q."""
    k = rng.randrange(10)
    if k < 2:
        return q
    if k < 4:
        return neg(q)
    if k == 4:
        return None
    if k == 5 and q:
        return (q[0] * BETA % P, q[1])
    if k == 6 and q:
        return (q[0] * BETA % P, -q[1] % P)
    if k == 7:
        return gadd(q, q)
    if k == 8:
        return neg(gadd(q, q))
    return some_point(rng, V)


def g_group(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "g%d" % k, rng, np=3)
        for _ in range(8):
            q = None if rng.randrange(10) == 0 else some_point(rng, V)
            o = related(rng, V, q)
            a, b = rng.sample((1, 2, 3), 2)
            s.pset(a, some_triple(rng, V, q))
            s.pset(b, some_triple(rng, V, o))
            j = rng.randrange(4)
            if j == 0:
                s.op("PTwice", a)
                s.op("PAdd", a, b)
            elif j == 1:
                s.op("PAdd", a, b)
                s.op("PAdd", b, a)
            elif j == 2:
                s.op("PAdd", a, b)
                s.op("PTwice", a)
                s.op("PTwice", b)
            else:
                s.op("PAdd", a, b)
            if rng.randrange(3) == 0:
                s.op("PIsZero", a)
        res.append(s)
    return res


def scalar_any(rng, V):
    k = rng.randrange(10)
    if k == 0:
        return rng.randrange(34)
    if k == 1:
        return (N + rng.randrange(-33, 34)) % M256
    if k == 2:
        return M256 - 1 - rng.randrange(34)
    if k == 3:      # equal nibbles, or one nibble
        d = rng.randrange(16)
        return int(("%x" % d) * 64, 16) if rng.randrange(2) else d << 4 * rng.randrange(64)
    if k == 4:      # few distinct nibbles
        ds = [rng.randrange(16) for _ in range(2)]
        return int("".join("%x" % rng.choice(ds) for _ in range(64)), 16)
    if k == 5:      # the accumulator meets the table entry: prefix * 16 = digit modulo the order
        i = rng.randrange(1, 60)
        return (N >> 4 * i << 4 * i) + rng.getrandbits(4 * i)
    if k == 6:
        return rng.randrange(16) + N - rng.choice((0, 16, 15, 1)) if rng.randrange(2) else (N + rng.getrandbits(120)) % M256
    return V.u()


# With any window width, the accumulator can meet an entry of the table, or its negative, only near the order.
NEAR_ORDER = [N + d for d in range(-34, 67)]


def g_scalar(rng, V, lang, n):
    res = []
    for k in range(0, len(NEAR_ORDER), 4):
        s = S(lang, "kn%d" % k, rng, nu=1, np=1)
        s.pset(1, some_triple(rng, V, some_point(rng, V)))
        for sc in NEAR_ORDER[k : k + 4]:
            s.uset(1, sc)
            s.pset(1, some_triple(rng, V, some_point(rng, V)))
            s.op("PMul", 1, 1)
        res.append(s)
    for k in range(n):
        s = S(lang, "k%d" % k, rng, nu=1, np=2)
        for _ in range(3):
            sc = scalar_any(rng, V)
            s.uset(1, sc)
            j = rng.randrange(6)
            if j == 0 and 0 < sc < N and not s.java:
                s.op("PPublic", 1, 1)
                s.op("POnCurve", 1)
                continue
            if j <= 2:
                s.op("PBase", 1)
            else:
                q = None if rng.randrange(12) == 0 else some_point(rng, V)
                s.pset(1, some_triple(rng, V, q))
            s.op("PMul", 1, 1)
            if rng.randrange(2):
                s.op("PIsZero", 1)
                s.op("PNormalize", 1)
        res.append(s)
    return res


def g_public(rng, V, lang, n):
    """Public keys of the private keys at the ends of their range and elsewhere; both routes agree."""
    res = []
    for k in range(n):
        s = S(lang, "y%d" % k, rng, nu=1, np=2)
        for _ in range(2):
            s.uset(1, V.scalar())
            if s.java:
                s.op("PBase", 1)
                s.op("PMul", 1, 1)
                s.op("PNormalize", 1)
                s.op("POnCurve", 1)
            else:
                s.op("PPublic", 1, 1)
                s.op("PCompress", 1)
        res.append(s)
    return res


def off_curve(rng, V, q):
    """Affine coordinates close to, but (nearly always) not, a point of the curve."""
    x, y = q
    k = rng.randrange(9)
    if k == 0:
        return x, (y + rng.choice((1, -1))) % P
    if k == 1:
        return (x + rng.choice((1, -1))) % P, y
    if k == 2:
        return y, x
    if k == 3:
        return x, 0
    if k == 4:
        return 0, y
    if k == 5:
        return x, y ^ 1 << rng.randrange(255) if y ^ 1 << 254 < P else y
    if k == 6:      # a point of the curve with another constant: y^2 = x^3 + c
        c = rng.choice((0, 1, 6, 8, P - 7, 14))
        while True:
            x = V.fe()
            y2 = (x**3 + c) % P
            y = pow(y2, (P + 1) // 4, P)
            if y * y % P == y2:
                return x, y
    if k == 7:      # y^2 and x^3 + 7 differ in one word or bit only
        t = ((x**3 + 7) ^ 1 << rng.randrange(256)) % P
        y = pow(t, (P + 1) // 4, P)
        return x, y
    return V.fe(), V.fe()


def g_predicates(rng, V, lang, n):
    res = []
    for k in range(0, len(REMARKABLE), 8):
        s = S(lang, "pr%d" % k, rng, np=1)
        for x, y in REMARKABLE[k : k + 8]:
            s.pset(1, (x, y, 1))
            s.op("POnCurve", 1)
            s.pset(1, (x, (y + rng.choice((1, -1))) % P, 1))
            s.op("POnCurve", 1)
            s.pset(1, triple((x, y), some_z(rng, V, (x, y))))
            s.op("PNormalize", 1)
            s.op("POnCurve", 1)
        res.append(s)
    for k in range(n):
        s = S(lang, "p%d" % k, rng, nf=2, np=3)
        for _ in range(10):
            q = None if rng.randrange(7) == 0 else some_point(rng, V)
            a, b = rng.sample((1, 2, 3), 2)
            j = rng.randrange(8)
            if j < 2:      # normalization of any representation, twice
                s.pset(a, some_triple(rng, V, q))
                s.op("PIsZero", a)
                s.op("PNormalize", a)
                if rng.randrange(3) == 0:
                    s.op("PNormalize", a)
                s.op("POnCurve", a)
                if q and not s.java:
                    s.op("PCompress", a)
            elif j < 4:
                q = q or G
                c = off_curve(rng, V, q) if rng.randrange(4) else q
                if not s.java and rng.randrange(3) == 0:
                    s.op("PFromHex", a, *(hexcase(rng, h32(v)).encode().hex() for v in c))
                elif not s.java and rng.randrange(2):
                    s.fset(1, c[0])
                    s.fset(2, c[1])
                    s.op("PFromXY", a, 1, 2)
                else:
                    s.pset(a, (c[0], c[1], 1))
                s.op("POnCurve", a)
                s.op("PIsZero", a)
                if not s.java:
                    s.op("PCompress", a)
            elif j == 4:      # not points at all, for the zero test
                z = rng.choice((0, 0, 1, V.fe()))
                s.pset(a, (rng.choice((0, 0, 1, 1 << 255, V.fe())) % P, rng.choice((0, 1, V.fe())), z))
                s.op("PIsZero", a)
            elif j == 5:      # equality of triples that differ in one coordinate
                t = list(some_triple(rng, V, q))
                s.pset(a, t)
                i = rng.randrange(4)
                if i < 3:
                    t[i] = near(rng, t[i]) % P
                s.pset(b, t)
                s.op("PReplace", 6 - a - b, a, rng.randrange(2))
                if not s.java:
                    s.op("PEqual", a, b)
            elif j == 6:
                s.pset(a, some_triple(rng, V, q))
                s.pset(b, some_triple(rng, V, some_point(rng, V)))
                s.op("PReplace", a, b, rng.randrange(2))
                if s.java:
                    s.op("PCopy", 6 - a - b, b)
                else:
                    s.op("PZero", 6 - a - b)
            else:
                s.op("PBase", a)
                s.op("POnCurve", a)
                s.op("PIsZero", a)
                if not s.java:
                    s.op("PZero", b)
                    s.op("POnCurve", b)
                    s.op("PIsZero", b)
        res.append(s)
    return res


# ---------------------------------------------------------------------------------------------- C09 - C11: ECDSA

def hz(z):
    return h32(z % M256)


def g_sign(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "s%d" % k, rng)
        for _ in range(2):
            d = V.scalar()
            nonce = V.scalar()
            z = rng.choice((0, 1, N - 1, N, N + 1, M256 - 1, M256 - 1 - rng.getrandbits(64), V.u(), rng.getrandbits(256)))
            j = rng.randrange(12)
            r = gmul(nonce, G)[0] % N
            if j == 0:      # a chosen s before the low-S rule
                t = rng.choice((1, 2, N // 2, N // 2 + 1, N // 2 + 2, N // 2 - 1, N - 1, N - 2))
                if rng.randrange(2):
                    z = (t * nonce - r * d) % N
                else:
                    d = (t * nonce - z) * inv(r, N) % N or 1
            elif j == 1:      # s = 0: no signature
                z = -r * d % N
                if z < M256 - N and rng.randrange(2):
                    z += N
            elif j == 2:
                nonce = rng.choice((0, N, N + 1, M256 - 1, N + rng.getrandbits(100)))
            elif j == 3:      # the sum z + r * d is at its largest, or just at the order
                t = rng.choice((N - 1, N - 1 - rng.getrandbits(64), 1, (N - z) % N or 1, (N - z + 1) % N or 1, (2 * N - z) % N or 1, (2 * N - 1 - z) % N or 1))
                d = t * inv(r, N) % N
            elif j == 4:
                d = rng.choice((1, N - 1))
            elif j == 5:
                nonce = rng.choice((1, N - 1, 2, N - 2, N // 2))
            elif j == 6:
                z = rng.choice((N + rng.getrandbits(120), M256 - 1 - rng.getrandbits(32)))
            elif j == 7:
                nonce = rng.choice((inv(rng.randrange(1, 40), N), inv(N - rng.randrange(1, 40), N), (1 << rng.randrange(255))))
            s.op("ESign", h32(d), hz(z), h32(nonce))
            if 0 < nonce < N and rng.randrange(3) == 0 and sign(d, z, nonce):
                s.op("EVerifyOwn", h32(d), hz(z))
        res.append(s)
    return res


def g_sign_hmac(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "h%d" % k, rng)
        for _ in range(2):
            d = V.scalar()
            z = rng.choice((V.u(), rng.getrandbits(256), N + rng.getrandbits(100), 0, M256 - 1))
            s.op("ESignHmac", h32(d), hz(z))
            if rng.randrange(3) == 0:
                s.op("EVerifyOwn", h32(d), hz(z))
            if rng.randrange(3) == 0:      # again, and with a neighbouring message
                s.op("ESignHmac", h32(d), hz(z ^ rng.choice((0, 1, 1 << 255))))
        res.append(s)
    return res


def xcand():
    """A point whose x coordinate is not below the order."""
    x = N
    while lift_x(x) is None:
        x += 1
    return lift_x(x)


BIGX = []


def big_x(rng):
    if not BIGX:
        x = N
        while len(BIGX) < 12:
            q = lift_x(x)
            if q:
                BIGX.append(q)
            x += 1 if len(BIGX) < 8 else 1 << 120
            if x >= P:
                x = P - 400
        x = P - 1
        while len(BIGX) < 16:
            q = lift_x(x)
            if q:
                BIGX.append(q)
            x -= 1
    return rng.choice(BIGX)


def g_verify(rng, V, lang, n):
    res = []
    for k in range(n):
        s = S(lang, "v%d" % k, rng)
        for _ in range(2):
            d, nonce = V.scalar(), V.scalar()
            z = rng.choice((V.u(), rng.getrandbits(256), 0, N, N - 1, N + 1, M256 - 1))
            sg = sign(d, z, nonce)
            if sg is None:
                continue
            q = gmul(d, G)
            r, ss = sg
            t = triple(q)
            j = rng.randrange(20)
            if j == 0:
                pass
            elif j == 1:      # also valid: the other s
                ss = N - ss
            elif j == 2:      # R.x is at least the order: r is small
                R = big_x(rng)
                r = R[0] - N
                ss = V.scalar()
                if r == 0:
                    continue
                w = inv(ss, N)
                q = gmul(inv(r * w % N, N), gadd(R, neg(gmul(z * w % N, G))))
                t = triple(q)
                if rng.randrange(4) == 0:
                    r = R[0]      # not reduced: must be refused
            elif j == 3:      # r plus the order would be an x coordinate, but r itself is meant
                small = rng.randrange(1, 1 << rng.randrange(1, 128))
                R = lift_x((small + N) % P)
                R2 = lift_x(small)
                R = R or R2
                if R is None:
                    continue
                r = R[0] % N or 1
                ss = V.scalar()
                w = inv(ss, N)
                q = gmul(inv(r * w % N, N), gadd(R, neg(gmul(z * w % N, G))))
                if q is None:
                    continue
                t = triple(q)
                if rng.randrange(4) == 0:
                    r = (r + N) % M256
            elif j == 4:      # u1 G + u2 Q is the identity, or a doubling
                ss, r = V.scalar(), V.scalar()
                if rng.randrange(2):
                    if z % N == 0:
                        continue
                    d = -z * inv(r, N) % N
                else:      # both terms are equal, and r is right
                    e = V.scalar()
                    R = gmul(2 * e, G)
                    r = R[0] % N
                    # u1 = e, u2 d = e
                    if z % N == 0:
                        z = 5
                    ss = z * inv(e, N) % N
                    u2 = r * inv(ss, N) % N
                    d = e * inv(u2, N) % N
                if d == 0:
                    continue
                t = triple(gmul(d, G))
            elif j == 5:      # out of range
                bad = rng.choice((0, N, N + 1, M256 - 1, None))
                if rng.randrange(2):
                    r = bad if bad is not None else (r + N) % M256
                else:
                    ss = bad if bad is not None else (ss + N) % M256
            elif j == 6:
                r, ss = rng.choice(((r + 1, ss), (r, ss + 1), (r - 1, ss), (r, ss - 1), (ss, r), (N - r, ss), (r ^ 1 << rng.randrange(250), ss), (r, ss ^ 1 << rng.randrange(250))))
            elif j == 7:      # another message
                z = rng.choice((z ^ 1 << rng.randrange(256), (z + N) % M256, (z - N) % M256))
            elif j == 8:      # another key
                t = triple(rng.choice((neg(q), gadd(q, G), (q[0] * BETA % P, q[1]))))
            elif j == 9:      # a representation that is not normalized
                t = triple(q, rng.choice((2, P - 1, V.fe() or 2)))
            elif j == 10:      # not a point
                c = off_curve(rng, V, q)
                t = (c[0], c[1], 1)
            elif j == 11:
                t = rng.choice(((0, 1, 0), (0, V.fe(), 0), (0, 0, 0), (0, 0, 1), (q[0], q[1], 0), (1, 0, 0)))
            elif j == 12:      # the message is zero modulo the order
                z = rng.choice((0, N))
                sg = sign(d, z, nonce)
                r, ss = sg
            elif j == 13:      # s = 1, n - 1, ...
                ss = rng.choice((1, N - 1, 2, N // 2, N // 2 + 1))
                z = (ss * nonce - r * d) % N
                if rng.randrange(2) and z < M256 - N:
                    z += N
            elif j == 14:      # r of a given point is matched by s for another message
                z = (z + N) % M256 if z + N < M256 else z
            elif j == 15:      # invalid, but accepted if the check of r were skipped or truncated
                r = (r & ~0xFFFFFFFF) | rng.getrandbits(32)
            elif j == 16:      # high word of r
                r = r ^ (1 << rng.randrange(224, 256))
            elif j == 17:
                t = triple(q)
                t = rng.choice(((t[0], t[1], 2), (t[0], t[1], P - 1), (t[1], t[0], 1)))
            elif j == 18:      # P = -R also has the right x
                ss = N - ss
                t = triple(neg(q)) if rng.randrange(2) else t
                z = z if rng.randrange(2) else -z % N
            s.op("EVerify", h32(t[0]), h32(t[1]), h32(t[2]), hz(z), h32(r % M256), h32(ss % M256))
        res.append(s)
    return [x for x in res if x.ops]
