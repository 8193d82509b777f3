"""Shared generators.  Floats are drawn as rounded decimals: they shrink well and print exactly."""
import math

from hypothesis import strategies as st


def fl(lo, hi, digits=6):
    """a decimal with `digits` significant fractional steps in [lo, hi]"""
    n = 10 ** digits
    return st.integers(0, n).map(lambda k: lo + (hi - lo) * (k / n)).map(lambda v: float("%.12g" % v))


def logfl(lo, hi, digits=6):
    n = 10 ** digits
    return st.integers(0, n).map(lambda k: float("%.12g" % math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * k / n)))


def fmtx(x):
    return repr(float(x))


@st.composite
def inc_grid(draw, nmin, nmax, lo=1e-3, hi=10.0, kinds=("lin", "log", "irr")):
    """strictly increasing positive grid"""
    n = draw(st.integers(nmin, nmax))
    kind = draw(st.sampled_from(list(kinds)))
    if kind == "lin":
        d = draw(fl(0.01, 1))
        x0 = draw(fl(0.001, 1))
        g = [x0 + d * i for i in range(n)]
    elif kind == "log":
        r = draw(fl(1.05, 2.5))
        x0 = draw(logfl(1e-6, 0.1))
        g = [x0 * r ** i for i in range(n)]
    else:
        d = draw(st.lists(fl(0.02, 1.0), min_size=n, max_size=n))
        x, g = 0.0, []
        for q in d:
            x += q
            g.append(x)
    g = [float("%.12g" % v) for v in g]
    return g


@st.composite
def sym_grid(draw, nmin, nmax):
    g = draw(inc_grid(nmin, nmax))
    return [-v for v in reversed(g)] + g
