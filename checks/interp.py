import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
import math

import numpy as np
from hypothesis import strategies as st

from vlib import build as B
from vlib import num, proc
from vlib.gen import fl, fmtx, logfl
from vlib.proc import expect, expect_close, expect_rejected, must_ok
from vlib.runner import Law, main

PROPERTY = "T09"
RULE = ("Tables of 5-40 irregularly spaced points of smooth functions (integration) or arbitrary values (resampling), rows in any order, "
        "comments anywhere. Non-trivial: the values are not constant (integration: and the range contains zero; resampling: at least "
        "one target point strictly between table points).")
ASSUMPTIONS = ["Interpolation is the Akima spline with natural boundary conditions; quadrature tolerance 2e-5 of the integral of |f|."]


def build(scratch, tier):
    return {"tools": B.build_tools(["integ", "resample"], scratch)}


@st.composite
def grid(draw, nmin=5, nmax=40):
    n = draw(st.integers(nmin, nmax))
    d = draw(st.lists(fl(0.05, 1.0), min_size=n - 1, max_size=n - 1))
    s = draw(logfl(0.01, 10)) / sum(d)
    x0 = draw(st.sampled_from([-1.0, -0.5, -0.25, 0.0, 0.1])) * s * sum(d)
    g = [x0]
    for q in d:
        g.append(g[-1] + q * s)
    g = [float("%.12g" % v) for v in g]
    if draw(st.booleans()) and g[0] < 0 < g[-1]:  # put a knot at zero
        i = min(range(n), key=lambda k: abs(g[k]))
        g[i] = 0.0
    return g


@st.composite
def integ_cases(draw):
    xs = draw(grid())
    L = xs[-1] - xs[0]
    kind = draw(st.sampled_from(["peaks", "cos", "poly"]))
    ys = [draw(fl(-1, 1))] * len(xs)
    if kind == "peaks":
        for _ in range(draw(st.integers(1, 3))):
            c, w, a = xs[0] + draw(fl(0, 1)) * L, draw(fl(0.2, 1)) * L, draw(fl(-2, 2))
            ys = [y + a * math.exp(-((x - c) / w) ** 2) for x, y in zip(xs, ys)]
    elif kind == "cos":
        k, ph = draw(fl(0.1, 6)) / L, draw(fl(0, 6))
        ys = [math.cos(k * (x - xs[0]) + ph) for x in xs]
    else:
        co = draw(st.lists(fl(-2, 2), min_size=4, max_size=4))
        ys = [sum(c * ((x - xs[0]) / L) ** i for i, c in enumerate(co)) for x in xs]
    n = len(xs)
    return {"x": xs, "y": ys, "out": draw(st.sampled_from(["", "-p", "-n", "-a", "-f"])),
            "T": draw(st.one_of(st.none(), logfl(1e-2, 10))), "verbose": draw(st.sampled_from([0, 0, 1])),
            "comments": draw(st.sampled_from([0, 1, 2])), "perm": draw(st.one_of(st.none(), st.permutations(list(range(n)))))}


def table(case):
    idx = case["perm"] or range(len(case["x"]))
    rows = ["%s %s" % (fmtx(case["x"][i]), fmtx(case["y"][i])) for i in idx]
    if case["comments"] >= 1:
        rows.insert(0, "# x y")
    if case["comments"] == 2:
        rows.insert(len(rows) // 2, "# comment")
    return "\n".join(rows) + "\n"


def abs_integ(ak, a, b):
    """integral of |spline|"""
    tot = 0.0
    for i in range(len(ak.x) - 1):
        h = ak.x[i + 1] - ak.x[i]
        co = [ak.d[i], ak.c[i], ak.b[i], ak.y[i]]
        r = np.roots(np.trim_zeros(co, "f")) if any(co[:3]) else []
        cuts = [0.0] + sorted(float(z.real) for z in np.atleast_1d(r) if abs(z.imag) < 1e-7 * (1 + abs(z.real)) and 0 < z.real < h) + [h]
        for u, v in zip(cuts, cuts[1:]):
            P = lambda t: t * (co[3] + t * (co[2] / 2 + t * (co[1] / 3 + t * co[0] / 4)))
            tot += abs(P(v) - P(u))
    return tot


def fermi_integ(ak, T):
    tot = 0.0
    brk = sorted({0.0} | {s * T * 2.0 ** k for s in (-1, 1) for k in range(-2, 12)})
    for i in range(len(ak.x) - 1):
        lo, hi = ak.x[i], ak.x[i + 1]
        cuts = [lo] + [q for q in brk if lo < q < hi] + [hi]
        f = lambda x: (ak.y[i] + (x - lo) * (ak.b[i] + (x - lo) * (ak.c[i] + (x - lo) * ak.d[i]))) / (1 + np.exp(np.clip(x / T, -700, 700)))
        for u, v in zip(cuts, cuts[1:]):
            tot += num.gl(f, u, v)
    return tot


def integ(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    proc.write(wd, {"f.dat": table(case)})
    xs = case["x"]
    L = xs[-1] - xs[0]
    T = None if case["T"] is None else case["T"] * L
    a = ([case["out"]] if case["out"] else []) + (["-T", repr(T)] if T is not None else []) + (["-v"] if case["verbose"] else [])
    r = must_ok(proc.run([ctx["tools"]["integ"]] + a + ["f.dat"], wd), "integ")
    ak = num.Akima(xs, case["y"])
    lo, hi = xs[0], xs[-1]
    tot = ak.integ(lo, hi)
    pos = ak.integ(max(lo, 0.0), hi) if hi > 0 else 0.0
    neg = ak.integ(lo, min(hi, 0.0)) if lo < 0 else 0.0
    ab = abs_integ(ak, lo, hi)
    fermi = neg if T is None else fermi_integ(ak, T)
    ref = {"": tot, "-p": pos, "-n": neg, "-a": ab, "-f": fermi}[case["out"]]
    lines = r.out.split("\n")
    got = float([l for l in lines if l.strip()][-1])
    tol = 2e-5 * ab + 1e-11
    expect_close(got, ref, 0, tol, "integral %s" % (case["out"] or "total"))
    if case["verbose"]:
        d = {l.split("=")[0]: float(l.split("=")[1]) for l in lines if l.startswith(("Total", "Positive", "Negative", "Fermi", "Sum"))}
        for k, v in (("Total", tot), ("Sum", tot), ("Positive", pos), ("Negative", neg), ("Total|f|", ab), ("Fermi-Dirac weighted", fermi)):
            expect_close(d[k], v, 1e-5, tol, "verbose " + k)
    lab = {"out" + case["out"]}
    if len(set(case["y"])) > 1 and lo < 0 < hi:
        lab.add("nontrivial")
    return lab


@st.composite
def res_cases(draw):
    xs = draw(grid())
    ys = draw(st.lists(st.one_of(fl(-2, 2), st.sampled_from([0.0, 1.0])), min_size=len(xs), max_size=len(xs)))
    m = draw(st.integers(1, 30))
    L = xs[-1] - xs[0]
    pts = draw(st.lists(st.one_of(fl(-0.3, 1.3).map(lambda t: xs[0] + t * L), fl(0, 1).map(lambda t: xs[0] + t * L), st.sampled_from(xs)), min_size=m, max_size=m))
    e = draw(st.booleans())
    return {"x": xs, "y": ys, "grid": pts, "e": e, "a": draw(st.one_of(st.none(), fl(-3, 3))) if e else None,
            "b": draw(st.one_of(st.none(), fl(-3, 3))) if e else None, "p": draw(st.sampled_from([None, 8, 17])),
            "comments": draw(st.sampled_from([0, 1, 2])), "perm": draw(st.one_of(st.none(), st.permutations(list(range(len(xs)))))),
            "same": draw(st.booleans()), "verbose": draw(st.sampled_from([0, 0, 1]))}


def resample(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    g = "".join("%s %s\n" % (fmtx(x), "0.5") for x in case["grid"])
    proc.write(wd, {"f.dat": table(case), "grid.dat": ("# grid\n" if case["comments"] else "") + g})
    a = []
    if case["verbose"]:
        a.append("-v")
    if case["e"]:
        a.append("-e")
    for k in "abp":
        if case[k] is not None:
            a += ["-" + k, repr(case[k])]
    out = "grid.dat" if case["same"] else "out.dat"
    must_ok(proc.run([ctx["tools"]["resample"]] + a + ["f.dat", "grid.dat", out], wd), "resample")
    tab = [l.split() for l in proc.read(wd, out).splitlines()]
    expect(len(tab) == len(case["grid"]), "%d rows for a grid of %d" % (len(tab), len(case["grid"])))
    xs, ys = case["x"], case["y"]
    ak = num.Akima(xs, ys)
    dig = 10.0 ** (1 - (case["p"] or 16))
    rt = max(dig, 1e-13)
    lab = set()
    sc = max(abs(v) for v in ys) + float(np.max(np.abs(ak.b) * np.diff(ak.x))) + float(np.max(np.abs(ak.c) * np.diff(ak.x) ** 2)) + float(np.max(np.abs(ak.d) * np.diff(ak.x) ** 3))
    # slopes that agree up to rounding make the Akima weights 0/0: the spline there is decided by rounding
    m = np.diff(ys) / np.diff(xs)
    mm = np.concatenate([[3 * m[0] - 2 * m[1], 2 * m[0] - m[1]], m, [2 * m[-1] - m[-2], 3 * m[-1] - 2 * m[-2]]])
    dm = np.abs(np.diff(mm))
    big = np.max(np.abs(mm)) + 1e-300
    frag = np.array([0 < dm[i] < 1e-9 * big for i in range(len(dm))])
    for row, x in zip(tab, case["grid"]):
        expect_close(float(row[0]), x, rt, 1e-300, "grid point")
        v = float(row[1])
        if x < xs[0] or x > xs[-1]:
            if case["e"]:
                w = (ys[0] if case["a"] is None else case["a"]) if x < xs[0] else (ys[-1] if case["b"] is None else case["b"])
                expect_close(v, w, rt, 1e-300, "extrapolated value at x=%.17g (range %g..%g)" % (x, xs[0], xs[-1]))
                lab.add("extrapolated")
            else:
                expect(not math.isfinite(v), "finite value %r invented at x=%r outside the table without -e" % (v, x))
                lab.add("outside")
        else:
            i = ak.seg(x)
            if frag[max(0, i - 1):i + 5].any() and x not in xs:
                lab.add("degenerate-slopes")
                continue
            expect_close(v, float(ak(x)), max(rt, 1e-10), 1e-12 * sc, "interpolated value at x=%.17g" % x)
            if x not in xs and len(set(ys)) > 1:
                lab.add("nontrivial")
    return lab


@st.composite
def bad_cases(draw):
    c = draw(res_cases())
    c["tool"] = draw(st.sampled_from(["integ", "resample"]))
    c["kind"] = draw(st.sampled_from(["empty", "few", "dup", "missing", "ab-without-e"]))
    return c


def bad(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    t, kind = case["tool"], case["kind"]
    c = dict(case, perm=None)
    if kind == "empty":
        txt = "# nothing\n"
    elif kind == "few":
        txt = "".join("%s %s\n" % (fmtx(x), fmtx(y)) for x, y in list(zip(c["x"], c["y"]))[:4])
    elif kind == "dup":
        c["x"] = list(c["x"])
        c["x"][2] = c["x"][1]
        txt = table(c)
    else:
        txt = table(c)
    proc.write(wd, {"g.dat": "0.5 1\n"})
    if kind != "missing":
        proc.write(wd, {"f.dat": txt})
    if kind == "ab-without-e":
        r = proc.run([ctx["tools"]["resample"], "-a", "1", "f.dat", "g.dat", "o.dat"], wd)
    elif t == "integ":
        r = proc.run([ctx["tools"]["integ"], "f.dat"], wd)
    else:
        r = proc.run([ctx["tools"]["resample"], "f.dat", "g.dat", "o.dat"], wd)
    expect_rejected(r, "%s, %s input" % (t, kind))
    expect(not os.path.exists(wd + "/o.dat"), "output written for invalid input")
    return {"nontrivial", t + "-" + kind}


LAWS = [
    Law("integrals", integ_cases(), integ, 4000),
    Law("resample", res_cases(), resample, 5000),
    Law("rejects", bad_cases(), bad, 500),
]

if __name__ == "__main__":
    main(sys.modules[__name__])
