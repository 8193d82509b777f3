import os
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from vlib import build as B
from vlib import proc
from vlib.gen import fl
from vlib.proc import expect, expect_rejected, must_ok, table
from vlib.runner import Law, main

PROPERTY = "T12"
RULE = ("Real symmetric matrices up to 14x14 (random, degenerate, block-diagonal, zero rows, widely different scales) and rectangular triples up "
        "to 8x8 in text (comments, blank lines, uneven white space) or binary form, every combination of the flags. Non-trivial: at least 2x2 and "
        "not diagonal.")
ASSUMPTIONS = []
num = st.one_of(fl(-2, 2), st.integers(-3, 3).map(float), st.sampled_from([0.0, 1.0, -1.0, 1e-15, -1e-13, 3e5]))


def build(scratch, tier):
    return {"tools": B.build_tools(["diag", "unitary", "h5write"], scratch)}


@st.composite
def matrices(draw, n, m):
    z = draw(st.integers(0, 3)) == 0
    return [[0.0 if z and draw(st.booleans()) else float(draw(num)) for _ in range(m)] for _ in range(n)]


@st.composite
def sym(draw):
    n = draw(st.integers(1, 14) if draw(st.integers(0, 3)) == 0 else st.integers(1, 6))
    kind = draw(st.sampled_from(["random", "random", "degenerate", "blocks", "int"]))
    rng = np.random.default_rng(draw(st.integers(0, 2 ** 31)))
    a = rng.normal(size=(n, n))
    a = a + a.T
    if kind == "degenerate":
        q = np.linalg.qr(a)[0]
        a = q @ np.diag(rng.integers(-1, 2, size=n).astype(float)) @ q.T
    elif kind == "blocks":
        g = rng.integers(0, 3, size=n)
        a = np.where(g[:, None] == g[None, :], a, 0.0)
    elif kind == "int":
        a = np.round(a)
    a = (a + a.T) / 2 * draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4]))
    return {"a": a.tolist(), "scale": draw(st.sampled_from([None, None, 2.0, 0.125, -1.0])), "B": draw(st.booleans()), "q": draw(st.booleans()),
            "ws": draw(st.integers(0, 3)), "verbose": draw(st.sampled_from(["", "-v", "-V"]))}


def text(m, ws, comments=True):
    rows = [("  " if ws > 1 else " ").join(repr(x) for x in r) for r in m]
    if ws == 1:
        rows = [" " + r + " " for r in rows]
    if ws >= 2 and comments:
        rows = ["# header 1 2 3"] + rows[:1] + ["", "# between"] + rows[1:]
    if ws == 3:
        rows = [r.replace("  ", "\t") for r in rows]
    return "\n".join(rows) + "\n"


def binary(m):
    return struct.pack("II", len(m), len(m[0])) + b"".join(struct.pack("d", x) for r in m for x in r)


def unbin(b):
    n, m = struct.unpack("II", b[:8])
    expect(len(b) == 8 + 8 * n * m, "binary file of %d bytes for %dx%d" % (len(b), n, m))
    return np.frombuffer(b[8:], float).reshape(n, m)


def eigen(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    a = np.array(case["a"])
    n = len(a)
    proc.write(wd, {"m": text(case["a"], case["ws"], comments=False)})
    args = (["-q"] if case["q"] else []) + ([case["verbose"]] if case["verbose"] else []) + ["-o", "val"]
    s = 1.0
    if case["scale"] is not None:
        s = case["scale"]
        args += ["-s", repr(s)]
    for flag in ([], ["-B"]):
        must_ok(proc.run([ctx["tools"]["diag"]] + flag + args + ["-O", "vec" + "".join(flag), "m"], wd), "diag")
        e = np.array([r[0] for r in table(open(os.path.join(wd, "val")).read())])
        v = unbin(open(os.path.join(wd, "vec-B"), "rb").read()) if flag else np.array(table(open(os.path.join(wd, "vec")).read()))
        expect(e.shape == (n,) and v.shape == (n, n), "diag: %s eigenvalues, %s eigenvectors for a %dx%d matrix" % (e.shape, v.shape, n, n))
        sc = max(np.abs(a).max(), 1e-300)
        expect(np.all(np.diff(e / s) >= 0), "diag: eigenvalues are not in ascending order")
        expect(np.abs(v @ v.T - np.eye(n)).max() <= 1e-11, "diag: the eigenvectors are not orthonormal")
        expect(np.abs(v @ a - (e / s)[:, None] * v).max() <= 1e-11 * sc * n, "diag: A v = lambda v does not hold (rows are eigenvectors)")
        expect(np.abs(e / s - np.linalg.eigvalsh(a)).max() <= 1e-11 * sc * n, "diag: eigenvalues")
    # conjugating with the tool's own eigenvectors diagonalises
    must_ok(proc.run([ctx["tools"]["unitary"], "-q", "-B", "-l", "-o", "d", "vec-B", "m", "vec-B"], wd), "unitary")
    d = np.array(table(open(os.path.join(wd, "d")).read()))
    expect(np.abs(d - np.diag(e / s)).max() <= 1e-11 * sc * n + 1e-14, "unitary: V A V^T is not the diagonal matrix of eigenvalues")
    return ["nontrivial"] if n > 1 and np.abs(a - np.diag(np.diag(a))).max() > 0 else []


@st.composite
def prods(draw):
    p, q, r, s = [draw(st.integers(1, 8)) for _ in range(4)]
    if draw(st.booleans()):
        q = r = p
        s = p
    c = {"t": draw(st.booleans()), "l": draw(st.booleans()), "B": draw(st.booleans()), "s": draw(st.sampled_from([None, 1.0, -0.5, 3.0])),
         "c": draw(st.sampled_from([None, 1e-3, 0.5, 0.0])), "ws": draw(st.integers(0, 3)), "v": draw(st.sampled_from([[], ["-q"], ["-v"], ["-V"]]))}
    c["A"] = draw(matrices(q, p) if c["t"] else matrices(p, q))
    c["M"] = draw(matrices(q, r))
    c["C"] = draw(matrices(s, r) if c["l"] else matrices(r, s))
    return c


def product(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    f = binary if case["B"] else (lambda m: text(m, case["ws"]))
    proc.write(wd, {"A": f(case["A"]), "M": text(case["M"], case["ws"]), "C": f(case["C"])})
    args = case["v"] + ["-" + k for k in "tlB" if case[k]]
    for k in "sc":
        if case[k] is not None:
            args += ["-" + k, repr(case[k])]
    r = must_ok(proc.run([ctx["tools"]["unitary"]] + args + ["-o", "out", "A", "M", "C"], wd), "unitary")
    a, m, c = np.array(case["A"]), np.array(case["M"]), np.array(case["C"])
    a, c = a.T if case["t"] else a, c.T if case["l"] else c
    s = 1.0 if case["s"] is None else case["s"]
    x, mag = s * (a @ m @ c), abs(s) * (np.abs(a) @ np.abs(m) @ np.abs(c))
    tol = 1e-14 if case["c"] is None else case["c"]
    got = np.array(table(open(os.path.join(wd, "out")).read()))
    expect(got.shape == x.shape, "unitary: %s instead of %s" % (got.shape, x.shape))
    err = 1e-14 * (mag + 1e-300) * 20
    sure0, sure1 = np.abs(x) + err <= tol, np.abs(x) - err > tol
    expect(np.all(got[sure0] == 0.0), "unitary: elements below the threshold %g are kept" % tol)
    bad = sure1 & ~(np.abs(got - x) <= err)
    expect(not bad.any(), "unitary: wrong element: %r instead of %r" % (got[bad][:1], x[bad][:1]))
    other = ~sure0 & ~sure1
    expect(np.all((got[other] == 0) | (np.abs(got - x)[other] <= err[other])), "unitary: wrong small element")
    return ["nontrivial"] if min(x.shape) > 1 else []


@st.composite
def h5s(draw):
    names = st.lists(st.sampled_from(["a", "b", "grp", "x1", "T"]), min_size=1, max_size=3)
    items, used = [], set()
    for _ in range(draw(st.integers(1, 4))):
        p = "/".join(draw(names))
        if any(p == u or p.startswith(u + "/") or u.startswith(p + "/") for u in used):
            continue
        used.add(p)
        m = draw(matrices(draw(st.integers(1, 6)), draw(st.integers(1, 6)))) if draw(st.booleans()) else float(draw(num))
        items.append([p, m])
    return {"items": items, "t": draw(st.booleans()), "ws": draw(st.integers(0, 3)), "slash": draw(st.booleans())}


def h5(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    for i, (p, m) in enumerate(case["items"]):
        path = ("/" if case["slash"] else "") + p
        if isinstance(m, list):
            proc.write(wd, {"m": text(m, case["ws"])})
            a = [path, "m"]
        else:
            a = ["-s", path, repr(m)]
            if m < 0:
                a = ["-s", "--", path, repr(m)]
        f = (["-t"] if i == 0 else []) + (a[:-2])
        must_ok(proc.run([ctx["tools"]["h5write"]] + f + ["f.h5"] + a[-2:], wd), "h5write")
    for p, m in case["items"]:
        must_ok(proc.run(["h5dump", "-d", "/" + p, "-b", "LE", "-o", "out", "f.h5"], wd), "h5dump " + p)
        x = np.fromfile(os.path.join(wd, "out"), "<f8")
        y = np.array(m, float).ravel()
        expect(x.shape == y.shape and np.all(x == y), "h5write: %s contains %s instead of %s" % (p, x[:6], y[:6]))
        h = proc.run(["h5dump", "-H", "-d", "/" + p, "f.h5"], wd).out
        if isinstance(m, list):
            expect("( %d, %d )" % (len(m), len(m[0])) in h, "h5write: shape of %s: %s" % (p, h[:300]))
    return ["nontrivial"] if len(case["items"]) > 1 else []


@st.composite
def bads(draw):
    k = draw(st.sampled_from(["nonsquare", "empty", "inner", "outer", "missing", "short", "text", "nofile"]))
    return {"k": k, "n": draw(st.integers(2, 5)), "B": draw(st.booleans()), "x": draw(st.integers(1, 3))}


def bad(case, ctx):
    """impossible requests stop with an error"""
    wd, n, x, k = ctx["wd"], case["n"], case["x"], case["k"]
    proc.clean(wd)
    sq, one = np.eye(n).tolist(), np.ones((n, n + x)).tolist()
    T = ctx["tools"]
    if k == "nonsquare":
        proc.write(wd, {"m": text(one if (n * (n + x)) ** 0.5 % 1 else sq[:1], 0)})
        r = proc.run([T["diag"], "-o", "val", "m"], wd)
    elif k == "empty":
        proc.write(wd, {"m": ""})
        r = proc.run([T["diag"], "-o", "val", "m"], wd)
    elif k == "nofile":
        r = proc.run([T["unitary"], "-o", "out", "A", "M", "C"], wd)
    else:
        a, m, c = sq, sq, sq
        if k == "inner":
            a = one
        elif k == "outer":
            c = np.ones((n + x, n)).tolist()
        f = binary if case["B"] else (lambda z: text(z, 0))
        fa, fm, fc = f(a), text(m, 0), f(c)
        if k == "short":
            fc = fc[:-9] if case["B"] else "1 2\n3\n"
        if k == "text":
            fm = text(m, 0).replace("1.0", "one", 1)
        if k == "missing":
            fm = text(m, 0).rsplit(" ", 1)[0] + "\n"
        proc.write(wd, {"A": fa, "M": fm, "C": fc})
        r = proc.run([T["unitary"], "-o", "out"] + (["-B"] if case["B"] else []) + ["A", "M", "C"], wd)
    expect(r.rc != 0, "%s: accepted: %r" % (k, r))
    expect(r.rc != -11, "%s: crashed: %r" % (k, r))
    return ["nontrivial"]


LAWS = [Law("eigen", sym(), eigen, 1200, 20000), Law("product", prods(), product, 1500, 20000), Law("hdf5", h5s(), h5, 300, 5000),
        Law("rejects", bads(), bad, 400, 4000)]
if __name__ == "__main__":
    main(sys.modules[__name__])
