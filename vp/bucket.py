"""Interval model of a token bucket: every decision narrows the set of balances the code may have."""
from . import boot
from .core import check

env = boot.env


class Bucket(object):
    """All balances the limiter may have: an interval, narrowed by every observed decision."""

    def __init__(self, rate, cap):
        self.rate, self.cap = float(rate), float(cap)
        self.lo, self.hi = 0.0, float(cap)
        self.wall, self.mono = env.wall(), env.mono
        self.stepped = False

    def eps(self):
        return 1e-9 * (1.0 + self.cap + self.rate)

    def tick(self):
        dw, dm = env.wall() - self.wall, env.mono - self.mono
        self.wall, self.mono = env.wall(), env.mono
        self.stepped = False
        lo, hi = max(0.0, min(dw, dm)), max(0.0, dw, dm)
        self.lo = min(self.cap, self.lo + lo * self.rate)
        self.hi = min(self.cap, self.hi + hi * self.rate)

    def request(self, cost, got, what):
        self.tick()
        e = self.eps()
        if got:
            check(self.hi + e >= cost, '%s: admitted an item of cost %r with at most %r credits (rate %r, burst %r)',
                  what, cost, self.hi, self.rate, self.cap)
            self.lo = max(self.lo, min(cost, self.hi)) - cost
            self.hi -= cost
            self.lo, self.hi = max(self.lo, 0.0), max(self.hi, 0.0)
        else:
            check(self.lo < cost + e, '%s: refused an item of cost %r with at least %r credits (rate %r, burst %r)',
                  what, cost, self.lo, self.rate, self.cap)
            self.hi = min(self.hi, max(cost, self.lo))

    def update(self, rate, cap):
        self.tick()
        self.lo *= cap / self.cap
        self.hi *= cap / self.cap
        self.rate, self.cap = float(rate), float(cap)
