"""Thin drawing interface shared by all generators.

`D` wraps a hypothesis draw function; `R` has the same interface on top of
random.Random (used to explore generators while developing and for measuring
their distribution).  All drawn floats lie on a grid, so that cases print and
shrink nicely and survive a JSON round trip bit for bit.
"""
import random


class _Base:
    def float(self, lo, hi, steps=1000):
        k = self.int(0, steps)
        return float("%.9g" % (lo + (hi - lo) * k / steps))

    def log(self, lo, hi, steps=1000):
        k = self.int(0, steps)
        return float("%.6g" % (lo * (hi / lo) ** (k / steps)))

    def bool(self, percent=50):
        return self.int(0, 99) >= 100 - percent

    def choice(self, seq):
        seq = list(seq)
        return seq[self.int(0, len(seq) - 1)]

    def subset(self, seq, lo=0, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        n = self.int(lo, hi)
        pool = list(range(len(seq)))
        out = []
        for _ in range(n):
            out.append(pool.pop(self.int(0, len(pool) - 1)))
        return [seq[i] for i in sorted(out)]

    def perm(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out


class D(_Base):
    def __init__(self, draw, st):
        self._draw = draw
        self._st = st

    def int(self, lo, hi):
        if lo == hi:
            return lo
        return self._draw(self._st.integers(lo, hi))


class R(_Base):
    def __init__(self, seed=0):
        self.r = random.Random(seed)

    def int(self, lo, hi):
        return self.r.randint(lo, hi)
