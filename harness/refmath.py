"""Arithmetic that the generators use to aim at interesting inputs. It judges nothing."""
import hashlib
import hmac as _hmac

P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
GX = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798
GY = 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8
G = (GX, GY)
M256 = 2**256
# x -> BETA x is multiplication by LAMBDA
BETA = 0x7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee


def inv(a, m):
    return pow(a, -1, m)


def gadd(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if a[1] != b[1] or a[1] == 0:
            return None
        l = 3 * a[0] * a[0] * inv(2 * a[1], P) % P
    else:
        l = (b[1] - a[1]) * inv(b[0] - a[0], P) % P
    x = (l * l - a[0] - b[0]) % P
    return x, (l * (a[0] - x) - a[1]) % P


def gmul(k, a):
    # Jacobian ladder; k is reduced modulo the order
    k %= N
    if a is None or k == 0:
        return None
    X, Y, Z = 0, 1, 0
    for c in bin(k)[2:]:
        if Z:
            S = 4 * X * Y * Y % P
            M = 3 * X * X % P
            X2 = (M * M - 2 * S) % P
            Y2 = (M * (S - X2) - 8 * Y**4) % P
            Z = 2 * Y * Z % P
            X, Y = X2, Y2
        if c == "1":
            if Z == 0:
                X, Y, Z = a[0], a[1], 1
            else:
                ZZ = Z * Z % P
                U = a[0] * ZZ % P
                S = a[1] * ZZ * Z % P
                H = (U - X) % P
                R = (S - Y) % P
                if H == 0:
                    if R:
                        X, Y, Z = 0, 1, 0
                    else:
                        q = gadd(a, a)
                        X, Y, Z = q[0], q[1], 1
                else:
                    HH = H * H % P
                    HHH = H * HH % P
                    V = X * HH % P
                    X3 = (R * R - HHH - 2 * V) % P
                    Y = (R * (V - X3) - Y * HHH) % P
                    X, Z = X3, Z * H % P
    if Z == 0:
        return None
    zi = inv(Z, P)
    return X * zi * zi % P, Y * zi * zi * zi % P


def neg(a):
    return None if a is None else (a[0], -a[1] % P)


def lift_x(x):
    y2 = (x * x * x + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    return (x, y) if y * y % P == y2 else None


def triple(a, z=1, y0=1):
    """A projective triple of a group element."""
    if a is None:
        return (0, y0, 0)
    return (a[0] * z % P, a[1] * z % P, z)


def sign(d, z, k):
    """(r, s) or None"""
    if not 0 < k < N:
        return None
    r = gmul(k, G)[0] % N
    s = inv(k, N) * (z + r * d) % N
    if r == 0 or s == 0:
        return None
    return r, min(s, N - s)


def h32(x):
    return "%064x" % x


def sha256d(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def hmac(alg, key, msg):
    return _hmac.new(key, msg, alg).digest()


B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58raw(b):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def b58check(b):
    return b58raw(b + sha256d(b)[:4])


B32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def polymod(v):
    c = 1
    for x in v:
        t = c >> 25
        c = (c & 0x1ffffff) << 5 ^ x
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            if t >> i & 1:
                c ^= g
    return c


def b32expand(h):
    return [ord(c) >> 5 for c in h] + [0] + [ord(c) & 31 for c in h]


def b32enc(h, groups, const=1):
    c = polymod(b32expand(h) + list(groups) + [0] * 6) ^ const
    return h + "1" + "".join(B32[g] for g in list(groups) + [c >> 5 * (5 - i) & 31 for i in range(6)])


def to5(b):
    acc = bits = 0
    r = []
    for x in b:
        acc = acc << 8 | x
        bits += 8
        while bits >= 5:
            bits -= 5
            r.append(acc >> bits & 31)
    if bits:
        r.append(acc << (5 - bits) & 31)
    return r
