import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
import math

from hypothesis import strategies as st

from vlib import build as B
from vlib import num, proc
from vlib.gen import fl, fmtx, logfl, sym_grid
from vlib.proc import expect, expect_close, expect_rejected, must_ok
from vlib.runner import Law, Violation, main

PROPERTY = "T04"
RULE = ("Symmetric non-uniform grids (4-60 points, linear/logarithmic/irregular) with random smooth, spiky or random values, random row "
        "order and comments, run through the file and the pipe interface. Non-trivial: an interior point whose principal value "
        "differs from zero and values not all equal.")
ASSUMPTIONS = ["The reference integrates the Akima interpolant of the table segment by segment (closed form next to the pole, "
               "Gauss-Legendre elsewhere); the tool's documented quadrature accuracy (1e-8 relative) bounds the tolerance."]


def build(scratch, tier):
    return {"tools": B.build_tools(["kk"], scratch)}


@st.composite
def cases(draw):
    xs = draw(sym_grid(3, 30))
    n = len(xs)
    kind = draw(st.sampled_from(["peaks", "cos", "poly", "log"]))
    X = xs[-1]
    ys = [0.0] * n
    if kind == "peaks":
        for _ in range(draw(st.integers(1, 3))):
            c, w, a = draw(fl(-0.8, 0.8)) * X, draw(fl(0.15, 1)) * X, draw(fl(-2, 2))
            sh = draw(st.sampled_from(["lorentz", "gauss"]))
            ys = [y + (a * w * w / ((x - c) ** 2 + w * w) if sh == "lorentz" else a * math.exp(-((x - c) / w) ** 2)) for x, y in zip(xs, ys)]
    elif kind == "cos":
        k, ph = draw(fl(0.1, 6)) / X, draw(fl(0, 6))
        ys = [math.cos(k * x + ph) for x in xs]
    elif kind == "poly":
        co = draw(st.lists(fl(-2, 2), min_size=4, max_size=4))
        ys = [sum(c * (x / X) ** i for i, c in enumerate(co)) for x in xs]
    else:  # a resonance at low energy, resolved on a logarithmic scale
        w, a, b = draw(logfl(1e-3, 1)) * X, draw(fl(-2, 2)), draw(fl(-1, 1))
        ys = [(a + b * x / w) * w * w / (x * x + w * w) for x in xs]
    if draw(st.booleans()):
        ys[0] = ys[-1] = 0.0
    order = draw(st.sampled_from(["asc", "desc", "perm"]))
    idx = list(range(n))
    if order == "desc":
        idx.reverse()
    elif order == "perm":
        idx = draw(st.permutations(idx))
    return {"x": [xs[i] for i in idx], "y": [ys[i] for i in idx], "mode": draw(st.sampled_from(["file", "pipe"])),
            "comments": draw(st.sampled_from([0, 1, 2]))}


def text(case):
    rows = ["%s %s" % (fmtx(x), fmtx(y)) for x, y in zip(case["x"], case["y"])]
    if case["comments"] == 2:
        rows.insert(len(rows) // 2, "# a comment between the data")
    return "# omega value\n" * case["comments"] + "\n".join(rows) + "\n"


def kk(ctx, txt, mode):
    wd = ctx["wd"]
    proc.clean(wd)
    if mode == "pipe":
        r = proc.run([ctx["tools"]["kk"], "-"], wd, stdin=txt.encode())
        return r, r.out
    proc.write(wd, {"in.dat": txt})
    r = proc.run([ctx["tools"]["kk"], "in.dat", "out.dat"], wd)
    return r, proc.read(wd, "out.dat")


def ref(case, ctx):
    r, out = kk(ctx, text(case), case["mode"])
    must_ok(r, "kk")
    if case["mode"] == "pipe":
        bad = [l for l in out.splitlines() if l.split() and not l.lstrip()[0] in "+-.0123456789ni"]
        expect(not bad, "pipe mode prints something other than the table: %r" % bad[:3])
    tab = proc.table(out)
    xy = sorted(zip(case["x"], case["y"]))
    xs, ys = [p[0] for p in xy], [p[1] for p in xy]
    expect(len(tab) == len(xs), "expected %d rows, got %d" % (len(xs), len(tab)))
    ak = num.Akima(xs, ys)
    ymax = max(abs(y) for y in ys)
    labels = set()
    for i, row in enumerate(tab):
        expect(len(row) == 2, "row %r" % row)
        expect_close(row[0], xs[i], 1e-12, 0, "grid point %d" % i)
        expect(math.isfinite(row[1]), "non-finite value at %g" % xs[i])
        if 0 < i < len(xs) - 1:
            v, sc = num.interpolation_pv(ak, xs[i])
            expect_close(row[1], v / math.pi, 1e-5, 1e-11 + 2e-4 * ymax, "KK transform at x=%.17g" % xs[i])
            if abs(v) > 1e-6 * ymax and len(set(ys)) > 1:
                labels.add("nontrivial")
        elif ys[i] == 0.0:
            # no singularity at an edge where the function vanishes
            f = 0.0
            for k in range(len(xs) - 1):
                lo, h = ak.x[k], ak.x[k + 1] - ak.x[k]
                y, b, c, d = ak.y[k], ak.b[k], ak.c[k], ak.d[k]
                z = xs[i]
                if lo == z:
                    f += h * (b + h * (c / 2 + h * d / 3))
                elif ak.x[k + 1] == z:
                    Bc = b + h * (2 * c + 3 * d * h)
                    C = c + 3 * d * h
                    f += h * Bc - h * h * C / 2 + h ** 3 * d / 3
                else:
                    n = 16
                    for q in range(n):
                        f += num.gl(lambda t: (y + t * (b + t * (c + t * d))) / (lo + t - z), h * q / n, h * (q + 1) / n)
            expect_close(row[1], f / math.pi, 1e-4, 1e-11 + 2e-4 * ymax, "KK transform at the edge x=%.17g" % xs[i])
            labels.add("zero-edge")
    labels.add(case["mode"])
    return labels


@st.composite
def bad_cases(draw):
    xs = draw(sym_grid(3, 12))
    ys = draw(st.lists(fl(-2, 2), min_size=len(xs), max_size=len(xs)))
    kind = draw(st.sampled_from(["odd", "asym_edge", "asym_inner", "empty"]))
    i = draw(st.integers(1, len(xs) - 2))
    if kind == "odd":
        xs.pop(i), ys.pop(i)
    elif kind == "asym_edge":
        xs[-1] *= 1 + draw(st.sampled_from([1e-4, 1e-2, 0.5]))
    elif kind == "asym_inner":
        j = min(len(xs) - 1, max(len(xs) // 2, i))
        if j == len(xs) - 1:
            j -= 1
        xs[j] += 0.25 * (xs[j + 1] - xs[j])
    else:
        xs, ys = [], []
    return {"x": xs, "y": ys, "kind": kind, "mode": draw(st.sampled_from(["file", "pipe"])), "comments": draw(st.sampled_from([0, 1]))}


def bad(case, ctx):
    r, out = kk(ctx, text(case), case["mode"])
    expect_rejected(r, "kk, %s input" % case["kind"])
    expect(not proc.table("\n".join(l for l in (out or "").splitlines() if l[:1] in "-0123456789")), "results written for invalid input (%s)" % case["kind"])
    return {"nontrivial", case["kind"]}


LAWS = [
    Law("reference", cases(), ref, 4000),
    Law("rejects", bad_cases(), bad, 400),
]

if __name__ == "__main__":
    main(sys.modules[__name__])
