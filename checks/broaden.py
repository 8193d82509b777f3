import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
import math

import numpy as np
from hypothesis import strategies as st

from vlib import binspec, proc
from vlib import build as B
from vlib.gen import fl, fmtx, logfl
from vlib.proc import expect, expect_close, must_ok
from vlib.runner import Law, main

PROPERTY = "T05"
RULE = ("1-4 binary spectra, all kernels, filters, mesh options and final convolution passes drawn at random. Non-trivial: at least three "
        "delta peaks survive the filters at two or more frequencies and the broadened spectrum is not identically zero.")
ASSUMPTIONS = ["Kernels as documented: modified log-Gaussian with the crossover to a Gaussian of width omega0, derivative of the Fermi "
               "function with effective temperature sigma.", "Frequency zero on a user-supplied mesh is generated only for the plain "
               "Gaussian kernel (the logarithmic kernel is undefined there)."]


def build(scratch, tier):
    return {"tools": B.build_tools(["broaden"], scratch)}


def logkernel(e, p, alpha):
    """e array, p scalar, same sign and non-zero"""
    with np.errstate(all="ignore"):
        same = e * p > 0
        r = np.where(same, e / p, 1.0)
        v = np.exp(-(np.log(r) / alpha - alpha / 4) ** 2) / (alpha * np.abs(e) * math.sqrt(math.pi))
    return np.where(same, v, 0.0)


def h0(x, om0, alpha):
    x = np.abs(x)
    with np.errstate(all="ignore"):
        return np.where(x > om0, 1.0, np.exp(-(np.log(np.where(x > 0, x, 1e-300) / om0) / alpha) ** 2)) * (x > 0)


def kernel(e, p, c):
    alpha, om0, acc = c["alpha"], c["om0"], c["acc"]
    if c["gauss"]:
        return np.exp(-((e - p) / alpha) ** 2) / (alpha * math.sqrt(math.pi))
    if p == 0.0:
        L = np.zeros_like(e)
    else:
        L = logkernel(e, p, alpha)
        if acc > 0:
            if p > acc:
                m = e > acc
                L[m] = logkernel(e[m] - acc, p - acc, alpha)
            if p < -acc:
                m = e < -acc
                L[m] = logkernel(e[m] + acc, p + acc, alpha)
    G = np.exp(-((e - p) / om0) ** 2) / (om0 * math.sqrt(math.pi))
    h = h0(np.full_like(e, p), om0, alpha) if c["norm"] else h0(e, om0, alpha)
    return L * h + G * (1 - h)


def convolve(x, a, sigma, kern):
    x, b = np.array(x), np.array(a)
    out = b.copy()
    if len(x) < 3:
        return out
    w = (x[2:] - x[:-2]) / 2
    for i in range(1, len(x) - 1):
        if abs(x[i]) < 100 * sigma:
            d = (x[i] - x[1:-1]) / sigma
            with np.errstate(all="ignore"):
                k = np.exp(-d * d / 2) / math.sqrt(2 * math.pi) / sigma if kern == "f" else 1 / ((1 + np.cosh(d)) * 2 * sigma)
            out[i] = np.sum(b[1:-1] * k * w)
    return out


@st.composite
def cases(draw):
    c = draw(binspec.spectra(max_rows=12))
    c["alpha"] = draw(fl(0.05, 1.0))
    c["T"] = draw(logfl(1e-4, 1.0))
    c["om0r"] = draw(st.one_of(st.none(), fl(0.2, 4)))
    c["norm"] = draw(st.booleans())
    c["gauss"] = draw(st.sampled_from([False, False, False, True]))
    c["f"] = draw(st.one_of(st.none(), st.none(), fl(0.1, 3)))
    c["x"] = draw(st.one_of(st.none(), st.none(), fl(0.1, 3)))
    c["acc"] = draw(st.one_of(st.just(0.0), st.just(0.0), fl(0.05, 0.9)))
    c["l"] = draw(st.one_of(st.none(), st.none(), logfl(1e-5, 0.5)))
    c["h"] = draw(st.one_of(st.none(), st.none(), fl(0.1, 2.5)))
    c["keep"] = draw(st.sampled_from(["", "", "P", "N"]))
    c["half"] = draw(st.sampled_from(["", "", "A", "B"]))
    c["cumul"] = draw(st.booleans())
    c["sumr"] = draw(st.booleans())
    c["verbose"] = draw(st.sampled_from([False, False, True]))
    if draw(st.sampled_from([False, False, True])):
        pts = draw(st.lists(st.one_of(fl(-2, 2, 4), logfl(1e-5, 1), logfl(1e-5, 1).map(lambda x: -x)), min_size=1, max_size=40, unique=True))
        c["mesh"] = sorted(p for p in pts if p != 0.0 or c["gauss"]) or [0.5]
    else:
        c["mesh"] = None
        c["min"] = draw(logfl(1e-6, 0.1))
        c["max"] = max(draw(fl(0.5, 4)), c["acc"] + 0.1)
        c["ratio"] = draw(fl(1.02, 1.6))
    return c


def run(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    sw, pos = binspec.write(wd, case)
    c = dict(case, om0=(case["om0r"] or 1e-9) * case["T"])
    a = list(sw)
    for k, o in (("norm", "-n"), ("gauss", "-g"), ("cumul", "-c"), ("sumr", "-s"), ("verbose", "-v")):
        if c[k]:
            a.append(o)
    for k, o in (("f", "-f"), ("x", "-x"), ("l", "-l"), ("h", "-h")):
        if c[k] is not None:
            a += [o, repr(c[k])]
    if c["acc"]:
        a += ["-a", repr(c["acc"])]
    if c["keep"]:
        a.append("-" + c["keep"])
    if c["half"]:
        a.append("-" + c["half"])
    if c["mesh"] is not None:
        proc.write(wd, {"mesh.dat": "# mesh\n" + "".join("%s %d\n" % (fmtx(m), i) for i, m in enumerate(c["mesh"]))})
        a += ["-L", "mesh.dat"]
    else:
        a += ["-m", repr(c["min"]), "-M", repr(c["max"]), "-r", repr(c["ratio"])]
    pos = pos + [repr(c["alpha"]), repr(c["T"])] + ([repr(c["om0r"])] if c["om0r"] is not None else [])
    r = must_ok(proc.run([ctx["tools"]["broaden"]] + a + pos, wd), "broaden")
    tab = proc.table(proc.read(wd, "spec.dat"))
    x = np.array([t[0] for t in tab])
    y = np.array([t[1] for t in tab])
    # the mesh
    if c["mesh"] is not None:
        expect(len(x) == len(c["mesh"]), "%d output points on a mesh of %d" % (len(x), len(c["mesh"])))
        for u, v in zip(x, c["mesh"]):
            expect_close(u, v, 1e-14, 0, "mesh point")
    else:
        n = math.log(c["max"] / c["min"]) / math.log(c["ratio"])
        k = int(math.ceil(n - 1e-6)), int(math.floor(n + 1e-6)) + 1
        halves = 1 if c["half"] else 2
        expect(len(x) in (halves * k[0], halves * k[1]), "mesh has %d points, expected %d" % (len(x), halves * k[0]))
        m = len(x) // halves
        g = [c["acc"] + c["max"] * c["ratio"] ** (-i) * (c["max"] - c["acc"]) / c["max"] for i in range(m)]
        want = sorted(([-v for v in g] if c["half"] != "A" else []) + (g if c["half"] != "B" else []))
        for u, v in zip(x, want):
            expect_close(u, v, 1e-10, 1e-300, "mesh point")
    # data
    sp = []
    for f, w in binspec.merged(case):
        if c["l"] is not None and abs(f) < c["l"] or c["h"] is not None and abs(f) > c["h"]:
            w = 0.0
        if c["keep"] == "P" and f < 0 or c["keep"] == "N" and f >= 0:
            w = 0.0
        sp.append((f, w))
    ref = np.zeros(len(x))
    sc = np.zeros(len(x))
    cond = np.zeros(len(x))
    for f, w in sp:
        k = kernel(x, f, c)
        ref += w * k
        sc += abs(w) * np.abs(k)
        # sensitivity to the rounding of the mesh and peak positions near the accumulation point
        if not c["gauss"] and c["acc"] > 0 and f != 0:
            with np.errstate(all="ignore"):
                d = np.minimum(np.abs(np.abs(x) - c["acc"]), abs(abs(f) - c["acc"]))
                cond += abs(w) * np.abs(k) * np.where(d > 0, 1e-15 / np.maximum(d, 1e-300) / c["alpha"] ** 2 * 100, 0)
    # points within rounding of the accumulation point sit on either side of the branch
    amb = np.zeros(len(x), bool)
    if c["acc"] > 0:
        amb = np.abs(np.abs(x) - c["acc"]) < 1e-12
    conv = [(c["f"], "f"), (c["x"], "x")]
    for g, kern in conv:
        if g is not None:
            if amb.any():
                return {"ambiguous"}
            ref, sc, cond = (convolve(x, v, g * c["T"], kern) for v in (ref, sc, cond))
    edge = [abs(abs(u) / (100 * g * c["T"]) - 1) < 1e-9 for g, _ in conv if g is not None for u in x]
    if any(edge):
        return {"ambiguous"}
    for i in range(len(x)):
        if not amb[i]:
            expect_close(y[i], ref[i], 1e-8, 1e-10 * sc[i] + cond[i] + 1e-280, "broadened spectrum at omega=%.17g" % x[i])
    if c["cumul"]:
        ct = proc.table(proc.read(wd, "cumulative.dat"))
        expect(len(ct) == len(x), "cumulative.dat has %d rows" % len(ct))
        tot = sum(abs(w) for _, w in sp)
        for i, (u, v) in enumerate(ct):
            expect(u == x[i], "cumulative.dat mesh differs from spec.dat")
            lo = sum(w for f, w in sp if f < u)
            near = [f for f, _ in sp if f != u and abs(f - u) < 1e-14 * abs(u)]
            if not near:
                expect_close(v, lo, 1e-10, 1e-12 * tot + 1e-280, "cumulative weight below omega=%.17g" % u)
    d = {l.split("=")[0]: float(l.split("=")[-1]) for l in r.out.splitlines() if "=" in l and not l.startswith(("Nz", "len"))
         and l.split("=")[-1].strip().replace(".", "").replace("e", "").replace("-", "").replace("+", "").isdigit()}
    tr = float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))
    ts = float(np.sum((abs(y[1:]) + abs(y[:-1])) / 2 * np.diff(x)))
    expect_close(d["Estimated weight (trapezoidal rule)"], tr, 1e-4, 1e-6 * ts + 1e-280, "reported weight")
    if c["sumr"]:
        T = c["T"]

        def S(fun):
            t = s = 0.0
            for f, w in sp:
                try:
                    q = fun(f / T)
                except (OverflowError, ZeroDivisionError):
                    continue
                if math.isfinite(q):
                    t, s = t + q * w, s + abs(q * w)
            return t, s

        def ex(v):
            try:
                return math.exp(v)
            except OverflowError:
                return math.inf

        for key, fun in (("Positive-omega weight", lambda u: 1.0 if u > 0 else 0.0), ("Negative-omega weight", lambda u: 1.0 if u < 0 else 0.0),
                         ("Integral with fermionic kernel", lambda u: 1 / (1 + ex(-u))), ("Integral with bosonic kernel", lambda u: 1 / (1 - ex(-u))),
                         ("Integral with fermionic kernel (omega -> -omega)", lambda u: 1 / (1 + ex(u))),
                         ("Integral with bosonic kernel (omega -> -omega)", lambda u: 1 / (1 - ex(u)))):
            t, s = S(fun)
            # 1-exp(-u) loses digits for small u
            loss = sum(abs(w) * (T / f) ** 2 for f, w in sp if f) * 1e-15 if "bosonic" in key else 0.0
            expect_close(d[key], t, 1e-4, 1e-6 * s + loss + 1e-280, key)
    lab = set()
    for k in ("norm", "gauss", "cumul", "sumr"):
        if c[k]:
            lab.add(k)
    for k in ("f", "x", "l", "h", "mesh"):
        if c[k] is not None:
            lab.add("with-" + k)
    if c["acc"]:
        lab.add("accumulation")
    if len([1 for f, w in sp if w]) >= 2 and np.any(y != 0):
        lab.add("nontrivial")
    return lab


@st.composite
def cons_cases(draw):
    c = draw(binspec.spectra(max_nz=2, max_rows=6, wlo=0.01, whi=1.0, flo=1e-4, fhi=1.0, allow_zero=True))
    c["alpha"] = draw(fl(0.1, 0.5))
    c["T"] = draw(logfl(1e-3, 0.1))
    c["om0r"] = draw(fl(0.3, 2))
    c["final"] = draw(st.sampled_from(["", ""]))
    return c


def conserve(case, ctx):
    """normalisation-conserving kernel: total weight survives on a mesh covering the support; a non-negative input stays non-negative"""
    wd = ctx["wd"]
    proc.clean(wd)
    sw, pos = binspec.write(wd, case)
    r = proc.run([ctx["tools"]["broaden"]] + sw + ["-n", "-m", "1e-7", "-M", "40", "-r", "1.01"] + pos +
                 [repr(case["alpha"]), repr(case["T"]), repr(case["om0r"])], wd)
    must_ok(r, "broaden -n")
    tab = np.array(proc.table(proc.read(wd, "spec.dat")))
    w = float(np.sum((tab[1:, 1] + tab[:-1, 1]) / 2 * np.diff(tab[:, 0])))
    tot = sum(q for _, q in binspec.merged(case))
    expect_close(w, tot, 2e-3, 1e-12, "total weight after normalisation-conserving broadening")
    expect(tab[:, 1].min() >= 0, "negative spectral density from positive weights")
    return {"nontrivial"} if binspec.nontrivial(case) else {"small"}


LAWS = [
    Law("reference", cases(), run, 5000),
    Law("conservation", cons_cases(), conserve, 400),
]

if __name__ == "__main__":
    main(sys.modules[__name__])
