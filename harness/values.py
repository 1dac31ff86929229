"""Values at which multi-word arithmetic, field arithmetic and scalar arithmetic have something to get wrong."""
import glob
import os
import re

from refmath import *

WORDS = (0, 1, 2, 3, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFF, 0x10000, 0xFFFF0000)
SPECIAL = (0, M256 - 1, P, N, M256 - P, M256 - N, M256 // 2, P // 2, N // 2, GX, GY, BETA)


def harvest(repo):
    """Integer literals in the current sources: numbers that a special case could be about."""
    small, big = set(), set()
    for f in sorted(glob.glob(os.path.join(repo, "cpp", "*.[chs]*")) + glob.glob(os.path.join(repo, "java", "**", "*.java"), recursive=True)):
        if "Test" in os.path.basename(f):
            continue
        with open(f, errors="replace") as h:
            t = h.read()
        for m in re.findall(r"\b0[xX]([0-9a-fA-F]+)", t):
            (small if len(m) <= 16 else big).add(int(m, 16))
        for m in re.findall(r"\b[1-9][0-9]{0,18}\b", t):
            small.add(int(m))
        for m in re.findall(r'"([0-9a-fA-F]{64})"', t):
            big.add(int(m, 16))
    return sorted(x for x in small if x < 2**64), sorted(x for x in big if x < M256)


class Values:
    def __init__(self, rng, repo):
        self.rng = rng
        self.small, self.big = harvest(repo)

    def word(self):
        r = self.rng
        k = r.random()
        if k < 0.55:
            return r.choice(WORDS)
        if k < 0.65:
            return r.choice(self.small) & 0xFFFFFFFF if self.small else 0
        if k < 0.75:
            return (1 << r.randrange(32)) - r.randrange(2) & 0xFFFFFFFF
        return r.getrandbits(32)

    def u(self):
        """An unsigned 256-bit number."""
        r = self.rng
        k = r.randrange(13)
        if k < 3:
            return sum(self.word() << 32 * i for i in range(8))
        if k == 3:      # two classes of words only
            a, b = self.word(), self.word()
            return sum(r.choice((a, b)) << 32 * i for i in range(8))
        if k == 4:      # a run of ones
            i, j = sorted((r.randrange(257), r.randrange(257)))
            return (1 << j) - (1 << i)
        if k == 5:      # zeros in a run
            i, j = sorted((r.randrange(257), r.randrange(257)))
            return M256 - 1 - ((1 << j) - (1 << i))
        if k == 6:      # near a boundary
            return (r.choice(SPECIAL) + r.randrange(-4, 5)) % M256
        if k == 7:
            return (r.choice((1, -1)) * (1 << r.randrange(257)) + r.randrange(-2, 3)) % M256
        if k == 8:
            return (r.choice(self.big) + r.randrange(-1, 2)) % M256 if self.big else 0
        if k == 9:
            return r.choice(self.small) << r.randrange(0, 193) & (M256 - 1) if self.small else 0
        if k == 10:
            return r.getrandbits(r.randrange(1, 257))
        if k == 11:     # words that cancel: their sum, or their exclusive or, is zero
            w = [r.choice((self.word, lambda: 0))() for _ in range(7)]
            x = 0
            for a in w:
                x ^= a
            w.insert(r.randrange(8), r.choice((-sum(w) & 0xFFFFFFFF, x)))
            return sum(a << 32 * i for i, a in enumerate(w))
        return r.getrandbits(256)

    def fe(self):
        """A field element."""
        r = self.rng
        k = r.randrange(8)
        if k == 0:
            return P - 1 - r.randrange(40)
        if k == 1:
            return r.randrange(40)
        if k == 2:
            return (P >> r.randrange(1, 33)) + r.randrange(-2, 3)
        if k == 3:      # -2^i, 2^i - 1, ...
            return (r.choice((1, -1)) * (1 << r.randrange(256)) + r.randrange(-2, 3)) % P
        return self.u() % P

    def scalar(self):
        """A number in the range of private keys."""
        r = self.rng
        k = r.randrange(6)
        if k == 0:
            return r.randrange(1, 40)
        if k == 1:
            return N - r.randrange(1, 40)
        if k == 2:
            return (N // 2 + r.randrange(-3, 4))
        x = self.u()
        return x if 0 < x < N else x % (N - 1) + 1
