import math

PB = 3000  # bits of the fixed-point reference
ONE = 1 << PB


def fx(v):
    n, d = float(v).as_integer_ratio()
    return (n << PB) // d


def lanczos(e, w, nmax):
    """exact three-term recursion (3000-bit fixed point) for star levels e with couplings w; floats xi[0..nmax], zeta[0..nmax]"""
    e = [fx(v) for v in e]
    u = [fx(v) for v in w]
    nrm = math.isqrt(sum(v * v for v in u))
    u = [(v << PB) // nrm for v in u]
    prev = [0] * len(u)
    b = 0
    xi, ze = [], []
    for n in range(nmax + 1):
        r = [(a * c) >> PB for a, c in zip(e, u)]
        a = sum(p * q for p, q in zip(r, u)) >> PB
        r = [p - ((a * q) >> PB) - ((b * s) >> PB) for p, q, s in zip(r, u, prev)]
        b = math.isqrt(sum(p * p for p in r))
        prev, u = u, [(p << PB) // b for p in r] if b else r
        xi.append(b / ONE)
        ze.append(a / ONE)
    return xi, ze
