import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
import math

import numpy as np
from hypothesis import strategies as st

from vlib import build as B
from vlib import proc
from vlib.gen import fl, fmtx, inc_grid, logfl
from vlib.proc import expect, expect_close, expect_rejected, must_ok
from vlib.runner import Law, main

PROPERTY = "T08"
RULE = ("2-5 data sets on independent, partly shared grids (different lengths and ranges); thermodynamic tables with 1-5 columns, rows in "
        "any order, optional reference tables. Non-trivial: at least two sets with different grids.")
ASSUMPTIONS = ["Mesh points closer than 1e-6 relative are one point (the tools' own epsilon): generated coincident points differ by "
               "0, 1e-8 (merged) or 3e-5 (kept apart) relative, never close to the threshold."]


def build(scratch, tier):
    return {"tools": B.build_tools(["intavg", "tdavg"], scratch)}


def interp(xs, ys, x):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = int(np.searchsorted(xs, x, side="right")) - 1
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


@st.composite
def grids(draw, n, positive=False, nmin=2):
    """n grids sampled from a common pool (so that points coincide) and from private points"""
    k = draw(st.integers(4, 14))
    lo, hi = (1, 400) if positive else (-200, 200)
    scale = draw(st.sampled_from([1e-4, 0.01, 1.0]))
    pool = draw(st.lists(st.integers(lo, hi), min_size=k, max_size=k, unique=True))
    gs = []
    for _ in range(n):
        m = draw(st.integers(nmin, k))
        g = draw(st.permutations(pool))[:m]
        j = draw(st.sampled_from([0.0, 0.0, 0.0, 1e-8, 3e-5]))
        gs.append([float("%.12g" % (v * scale * (1 + j))) for v in g])
    return gs


def mesh(gs):
    m = []
    for x in sorted({x for g in gs for x in g}):
        if not m or abs(x - m[-1]) >= 1e-6 * abs(m[-1]):
            m.append(x)
    return m


@st.composite
def int_cases(draw):
    n = draw(st.integers(1, 5))
    gs = [sorted(g) for g in draw(grids(n))]
    return {"x": gs, "y": [draw(st.lists(fl(-2, 2), min_size=len(g), max_size=len(g))) for g in gs],
            "comments": draw(st.sampled_from([0, 1, 2])), "extra": draw(st.sampled_from(["", "-v"]))}


def intavg(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    gs, ys = case["x"], case["y"]
    for i, (g, y) in enumerate(zip(gs, ys)):
        os.mkdir(os.path.join(wd, str(i + 1)))
        rows = ["%s %s" % (fmtx(a), fmtx(b)) for a, b in zip(g, y)]
        if case["comments"] >= 1:
            rows.insert(0, "# x y")
        if case["comments"] == 2:
            rows.insert(2, "# more")
        proc.write(os.path.join(wd, str(i + 1)), {"a.dat": "\n".join(rows) + "\n"})
    r = must_ok(proc.run([ctx["tools"]["intavg"]] + ([case["extra"]] if case["extra"] else []) + ["a.dat", str(len(gs))], wd), "intavg")
    tab = proc.table(proc.read(wd, "a.dat"))
    m = mesh(gs)
    expect(len(tab) == len(m), "%d output points, the union of the grids has %d" % (len(tab), len(m)))
    for row, x in zip(tab, m):
        expect_close(row[0], x, 1e-14, 0, "mesh point")
        v = [interp(g, y, x) for g, y in zip(gs, ys)]
        expect_close(row[1], sum(v) / len(v), 1e-9, 1e-10, "average at x=%.17g" % x)
    return {"nontrivial" if len(gs) > 1 and len({tuple(g) for g in gs}) > 1 else "plain", "n%d" % len(gs)}


@st.composite
def td_cases(draw):
    n = draw(st.integers(1, 4))
    cols = draw(st.integers(1, 5))
    gs = draw(grids(n, positive=True, nmin=1))
    tab = [[draw(st.lists(fl(-3, 3), min_size=cols, max_size=cols)) for _ in g] for g in gs]
    c = {"T": gs, "v": tab, "c": draw(st.booleans()), "header": draw(st.booleans()), "names": draw(st.sampled_from(["default", "one", "two"])),
         "v_": draw(st.sampled_from(["", "-v"]))}
    if draw(st.booleans()):
        rg = draw(grids(n, positive=True, nmin=1))
        c["rT"] = rg
        c["rv"] = [[draw(st.lists(fl(-3, 3), min_size=cols, max_size=cols)) for _ in g] for g in rg]
    else:
        c["rT"] = None
    return c


def td_text(gs, vs, header):
    out = []
    for i, (g, v) in enumerate(zip(gs, vs)):
        if header or i:
            out.append("#  T  columns")
        if header and i:
            out.append("# z=%d" % i)
        out += ["%s  %s " % (fmtx(t), "  ".join(fmtx(q) for q in row)) for t, row in zip(g, v)]
    return "\n".join(out) + "\n"


def tdavg(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    gs, vs = case["T"], case["v"]
    names = case["names"]
    if case["rT"] is not None and names == "one":
        names = "two"
    inp = "td.dat" if names == "default" else "therm"
    ref = "td-ref.dat" if names == "default" else "refer"
    proc.write(wd, {inp: td_text(gs, vs, case["header"])})
    if case["rT"] is not None:
        proc.write(wd, {ref: td_text(case["rT"], case["rv"], case["header"])})
    elif names == "two":
        names = "one"
    args = {"default": [], "one": [inp], "two": [inp, ref]}[names]
    r = must_ok(proc.run([ctx["tools"]["tdavg"]] + (["-c"] if case["c"] else []) + ([case["v_"]] if case["v_"] else []) + args, wd), "tdavg")
    txt = proc.read(wd, "td-avg.dat" if names == "default" else inp + ".avg.dat")
    tab = proc.table(txt)
    m = mesh(gs)
    expect(len(tab) == len(m), "%d temperatures in the output, the union of the grids has %d" % (len(tab), len(m)))
    if case["c"] and case["header"]:
        expect(txt.startswith("#  T  columns"), "comment line not copied")

    def at(g, v, T, k):
        p = sorted(zip(g, v))
        return interp([q[0] for q in p], [q[1][k] for q in p], T)
    for row, T in zip(tab, m):
        expect_close(row[0], T, 1e-14, 0, "temperature")
        expect(len(row) == 1 + len(vs[0][0]), "row with %d columns" % len(row))
        for k in range(len(row) - 1):
            s = sum(at(g, v, T, k) for g, v in zip(gs, vs)) / len(gs)
            if case["rT"] is not None:
                s -= sum(at(g, v, T, k) for g, v in zip(case["rT"], case["rv"])) / len(gs)
            expect_close(row[k + 1], s, 1e-9, 1e-10, "column %d at T=%.17g" % (k + 1, T))
    l = {"nz%d" % len(gs)}
    if case["rT"] is not None:
        l.add("reference")
    if len(gs) > 1 and len({tuple(sorted(g)) for g in gs}) > 1:
        l.add("nontrivial")
    return l


@st.composite
def bad_cases(draw):
    c = draw(td_cases())
    c["kind"] = draw(st.sampled_from(["columns", "nz-mismatch", "empty", "missing", "int-missing", "int-short"]))
    c["k"] = draw(st.integers(0, 100))
    return c


def bad(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    txt = td_text(case["T"], case["v"], True)
    kind = case["kind"]
    if kind.startswith("int"):
        os.mkdir(os.path.join(wd, "1"))
        proc.write(wd + "/1", {"a.dat": "1 2\n2 3\n" if kind == "int-missing" else "# x\n1 2\n"})
        r = proc.run([ctx["tools"]["intavg"], "a.dat", "2" if kind == "int-missing" else "1"], wd)
        expect_rejected(r, "intavg, %s input" % kind)
        expect(not os.path.exists(wd + "/a.dat"), "output written for invalid input")
        return {"nontrivial", kind}
    if kind == "columns":
        L = txt.splitlines()
        rows = [i for i, l in enumerate(L) if not l.startswith("#")]
        if len(rows) < 2:
            return {"degenerate"}
        L[rows[case["k"] % len(rows)]] += " 7.5"
        proc.write(wd, {"td.dat": "\n".join(L) + "\n"})
    elif kind == "nz-mismatch":
        proc.write(wd, {"td.dat": txt, "td-ref.dat": txt + "# extra\n" + txt.splitlines()[1] + "\n"})
    elif kind == "empty":
        proc.write(wd, {"td.dat": "# nothing\n"})
    r = proc.run([ctx["tools"]["tdavg"]], wd)
    expect_rejected(r, "tdavg, %s input" % kind)
    expect(not proc.table(proc.read(wd, "td-avg.dat") or ""), "output written for invalid input")
    return {"nontrivial", kind}


LAWS = [
    Law("intavg", int_cases(), intavg, 5000),
    Law("tdavg", td_cases(), tdavg, 5000),
    Law("rejects", bad_cases(), bad, 600),
]

if __name__ == "__main__":
    main(sys.modules[__name__])
