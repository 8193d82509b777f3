"""Piecewise-linear densities: exact values, integrals and inverse integrals."""
import bisect
import math

from hypothesis import strategies as st

from .gen import fl, logfl


class Pwl:
    """value, clamped outside the table; integral from 0 (table extended by constants)"""

    def __init__(self, x, y):
        self.x, self.y = list(x), list(y)
        s = [self.x[0] * self.y[0]]
        for i in range(1, len(x)):
            s.append(s[-1] + (x[i] - x[i - 1]) * (y[i] + y[i - 1]) / 2)
        self.s = s

    def _i(self, t):
        return min(max(bisect.bisect_right(self.x, t) - 1, 0), len(self.x) - 2)

    def __call__(self, t):
        x, y = self.x, self.y
        if t <= x[0]:
            return y[0]
        if t >= x[-1]:
            return y[-1]
        i = self._i(t)
        return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i])

    def R(self, t):
        x, y, s = self.x, self.y, self.s
        if t <= x[0]:
            return t * y[0]
        if t >= x[-1]:
            return s[-1] + (t - x[-1]) * y[-1]
        i = self._i(t)
        d = t - x[i]
        return s[i] + d * y[i] + d * d * (y[i + 1] - y[i]) / (x[i + 1] - x[i]) / 2

    def diffR(self, a, b):
        """R(b)-R(a), accurate for small differences inside one segment"""
        if a <= self.x[0] and b <= self.x[0]:
            return (b - a) * self.y[0]
        i = self._i(a)
        if i == self._i(b) and self.x[i] <= a and b <= self.x[i + 1]:
            return (b - a) * (self(a) + self(b)) / 2
        return self.R(b) - self.R(a)

    def inv(self, v):
        """t with R(t) = v (rho > 0)"""
        x, y, s = self.x, self.y, self.s
        if v <= s[0]:
            return v / y[0]
        if v >= s[-1]:
            return x[-1] + (v - s[-1]) / y[-1]
        i = min(max(bisect.bisect_right(s, v) - 1, 0), len(x) - 2)
        k = (y[i + 1] - y[i]) / (x[i + 1] - x[i])
        c = v - s[i]
        return x[i] + 2 * c / (y[i] + math.sqrt(max(y[i] ** 2 + 2 * k * c, 0.0)))


@st.composite
def density(draw, D=1.0, nmin=2, nmax=12, lo=0.2, hi=2.0, xmin=None):
    """positive density on (0, D]: kinked, flat or smooth; list of (x,y), increasing, last x = D"""
    kind = draw(st.sampled_from(["flat", "linear", "kinked", "log", "smooth"]))
    x0 = xmin if xmin is not None else draw(logfl(1e-8, 1e-2))
    if kind == "flat":
        v = draw(fl(lo, hi))
        xs, ys = [x0, 1.0], [v, v]
    elif kind == "linear":
        xs, ys = [x0, 1.0], [draw(fl(lo, hi)), draw(fl(lo, hi))]
    elif kind == "kinked":
        n = draw(st.integers(nmin, nmax))
        xs = sorted(set([x0, 1.0] + [float("%.9g" % max(x0 * 1.5, v)) for v in draw(st.lists(fl(0.02, 0.98), min_size=n, max_size=n))]))
        t = [xs[0]]
        for v in xs[1:]:
            if v >= t[-1] + 0.03 and (v <= 0.97 or v == 1.0):
                t.append(v)
        xs = t
        ys = draw(st.lists(fl(lo, hi), min_size=len(xs), max_size=len(xs)))
    elif kind == "log":
        n = draw(st.integers(nmin, nmax))
        n = max(1, min(n, int(math.log(1 / x0) / 0.2)))
        xs = sorted(set(float("%.9g" % (x0 ** (1 - i / n))) for i in range(n)) | {1.0})
        ys = draw(st.lists(fl(lo, hi), min_size=len(xs), max_size=len(xs)))
    else:
        n = 60
        a, w, c = draw(fl(0, hi - lo)), draw(fl(0.1, 1)), draw(fl(-0.5, 1.5))
        xs = [x0] + [i / n for i in range(1, n + 1) if i / n > 1.2 * x0]
        ys = [lo + a * math.exp(-((t - c) / w) ** 2) for t in xs]
    return [[float("%.12g" % (t * D)), float("%.12g" % v)] for t, v in zip(xs, ys)]
