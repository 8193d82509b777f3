"""Independent numerical references (pure Python / numpy)."""
import math

import numpy as np


class Akima:
    """Akima spline with natural (non-periodic) boundary conditions, as documented for GSL's gsl_interp_akima."""

    def __init__(self, x, y):
        n = len(x)
        self.x = np.array(x, float)
        self.y = np.array(y, float)
        h = np.diff(self.x)
        m = np.empty(n + 3)
        m[2:n + 1] = np.diff(self.y) / h
        m[1] = 2 * m[2] - m[3] if n > 2 else m[2]
        m[0] = 3 * m[2] - 2 * m[3] if n > 2 else m[2]
        m[n + 1] = 2 * m[n] - m[n - 1]
        m[n + 2] = 3 * m[n] - 2 * m[n - 1]
        self.b = np.empty(n - 1)
        self.c = np.empty(n - 1)
        self.d = np.empty(n - 1)
        for i in range(n - 1):
            j = i + 2
            NE = abs(m[j + 1] - m[j]) + abs(m[j - 1] - m[j - 2])
            if NE == 0.0:
                self.b[i], self.c[i], self.d[i] = m[j], 0.0, 0.0
            else:
                hi = h[i]
                NEn = abs(m[j + 2] - m[j + 1]) + abs(m[j] - m[j - 1])
                al = abs(m[j - 1] - m[j - 2]) / NE
                if NEn == 0.0:
                    tL = m[j]
                else:
                    aln = abs(m[j] - m[j - 1]) / NEn
                    tL = (1 - aln) * m[j] + aln * m[j + 1]
                bi = (1 - al) * m[j - 1] + al * m[j]
                self.b[i] = bi
                self.c[i] = (3 * m[j] - 2 * bi - tL) / hi
                self.d[i] = (bi + tL - 2 * m[j]) / (hi * hi)

    def seg(self, x):
        return int(np.clip(np.searchsorted(self.x, x, side="right") - 1, 0, len(self.x) - 2))

    def __call__(self, x):
        i = self.seg(x)
        t = x - self.x[i]
        return self.y[i] + t * (self.b[i] + t * (self.c[i] + t * self.d[i]))

    def deriv(self, x):
        i = self.seg(x)
        t = x - self.x[i]
        return self.b[i] + t * (2 * self.c[i] + t * 3 * self.d[i])

    def integ(self, a, b):
        s = 1.0
        if b < a:
            a, b, s = b, a, -1.0
        tot = 0.0
        ia, ib = self.seg(a), self.seg(b)
        for i in range(ia, ib + 1):
            lo = max(a, self.x[i]) - self.x[i] if i == ia else 0.0
            hi = (b if i == ib else self.x[i + 1]) - self.x[i]
            P = lambda t: t * (self.y[i] + t * (self.b[i] / 2 + t * (self.c[i] / 3 + t * self.d[i] / 4)))
            tot += P(hi) - P(lo)
        return s * tot


_GL = np.polynomial.legendre.leggauss(40)


def gl(f, a, b):
    """40-point Gauss-Legendre (f vectorised)"""
    xm, xr = (a + b) / 2, (b - a) / 2
    return xr * float(np.dot(_GL[1], f(xm + xr * _GL[0])))


def lin(xs, ys, x):
    """piecewise linear interpolation inside [xs[0], xs[-1]]"""
    i = int(np.clip(np.searchsorted(xs, x, side="right") - 1, 0, len(xs) - 2))
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


def interpolation_pv(ak, z):
    """PV integral of ak(x)/(x-z) dx over the whole range, z a knot strictly inside the range."""
    x = ak.x
    tot = 0.0
    scale = 0.0
    for i in range(len(x) - 1):
        lo, hi = x[i], x[i + 1]
        h = hi - lo
        y, b, c, d = ak.y[i], ak.b[i], ak.c[i], ak.d[i]
        if lo == z:
            v = h * (b + h * (c / 2 + h * d / 3)) + y * math.log(h)
        elif hi == z:
            # expand around the right end: t = x - hi in [-h, 0]
            B = b + h * (2 * c + 3 * d * h)
            C = c + 3 * d * h
            v = h * B - h * h * C / 2 + h ** 3 * d / 3 - (ak.y[i + 1]) * math.log(h)
        else:
            dist = lo - z if lo > z else z - hi
            f = lambda t: (y + t * (b + t * (c + t * d))) / (lo + t - z)
            if dist >= 0.3 * h:
                v = gl(f, 0, h)
            else:  # dyadic refinement towards z
                v = 0.0
                if lo > z:
                    a0 = 0.0
                    w = dist * 2
                    while a0 < h:
                        e = min(h, a0 + w)
                        v += gl(f, a0, e)
                        a0, w = e, w * 2
                else:
                    a0 = h
                    w = dist * 2
                    while a0 > 0:
                        e = max(0.0, a0 - w)
                        v += gl(f, e, a0)
                        a0, w = e, w * 2
        tot += v
        scale += abs(v)
    return tot, scale
