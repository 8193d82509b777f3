import math
import os
import pwd
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from vlib import build as B
from vlib import proc
from vlib.proc import expect
from vlib.runner import Invalid, Law, Violation, main

PROPERTY = "S01"
RULE = ("Random tables (1-12 rows, 2-5 columns, comment lines at random places, leading blanks and tabs, integers, decimals and exponents), random "
        "arguments, one script per case. Non-trivial: at least three data rows (tables), at least two files, blocks, parameters or directories (others).")
ASSUMPTIONS = ["Scripts that sum, average or combine several files get tables of the same shape with comments on the same lines (they say that they do not check)."]
REL = 1e-11


def build(scratch, tier):
    d = os.path.join(scratch, "bin")
    shutil.copytree(os.path.join(B.REPO, "scripts"), d)
    for f in os.listdir(d):
        os.chmod(os.path.join(d, f), 0o755)
    os.chmod(scratch, 0o755)
    return {"bin": d}


def nobody():
    try:
        return pwd.getpwnam("nobody").pw_uid
    except KeyError:
        return 65534


def call(ctx, cmd, stdin=None):
    """runs a script as an unprivileged user inside its own directory"""
    wd = ctx["wd"]
    root = os.getuid() == 0
    if root:
        for d, ds, fs in os.walk(wd):
            for x in [d] + [os.path.join(d, f) for f in fs]:
                os.chown(x, nobody(), -1)
    kw = {"user": nobody(), "group": nobody(), "extra_groups": []} if root else {}
    e = {"PATH": ctx["bin"] + ":/usr/bin:/bin", "HOME": wd, "LC_ALL": "C", "TMPDIR": wd}
    try:
        p = subprocess.run([os.path.join(ctx["bin"], cmd[0])] + [str(a) for a in cmd[1:]], cwd=wd, input=(stdin or "").encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60, env=e, **kw)
    except subprocess.TimeoutExpired:
        raise Violation("%s does not finish" % " ".join(map(str, cmd)))
    return proc.R(p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1"))


# -------------------------------------------------------------------------------------------------------------------------- generators
@st.composite
def number(draw, pos=False, nonzero=False):
    k = draw(st.integers(0, 4))
    if k == 0:
        s = str(draw(st.integers(1 if nonzero or pos else 0, 50)))
    elif k == 1:
        s = "%.3f" % draw(st.floats(0.001 if nonzero or pos else 0, 30))
    elif k == 2:
        s = "%.10g" % (draw(st.floats(0.1, 9.9)) * 10.0 ** draw(st.integers(-12, 12)))
    elif k == 3:
        s = "%.16e" % draw(st.floats(0.1, 9.9))
    else:
        s = "%.15g" % draw(st.floats(0.01, 3))
    if nonzero and float(s) == 0:
        s = "1"
    if not pos and draw(st.booleans()):
        s = "-" + s
    return s


@st.composite
def layout(draw, n):
    """comments: row -> lines before it; blanks: how the columns are separated"""
    com = draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(["# x y", "#", "#1 2", "# 3 4 5", "#a b c"])), max_size=3))
    return {"com": com, "lead": draw(st.sampled_from(["", "", " ", "   ", "\t"])), "sep": draw(st.sampled_from([" ", "  ", "\t", "   "]))}


def emit(rows, lay):
    out = []
    com = sorted((a, b) for a, b in lay["com"])
    for i in range(len(rows) + 1):
        out += [c for a, c in com if a == i]
        if i < len(rows):
            out.append(lay["lead"] + lay["sep"].join(rows[i]))
    return "".join(l + "\n" for l in out)


NOCOM = {"com": [], "lead": "", "sep": " "}


@st.composite
def tab(draw, lo=1, hi=12, cols=None, sort=False, nonzero=False, distinct=False, even=False, positive=False):
    n = draw(st.integers(lo, hi))
    if even:
        n += n % 2
    c = cols or draw(st.integers(2, 5))
    rows = [[draw(number(nonzero=nonzero, pos=positive)) for _ in range(c)] for _ in range(n)]
    if sort or distinct:
        xs = draw(st.lists(st.integers(-4000, 4000), min_size=n, max_size=n, unique=True))
        if sort:
            xs.sort()
        f = draw(st.sampled_from([1e-3, 1.0, 0.01, 1e-6]))
        for r, x in zip(rows, xs):
            r[0] = "%.12g" % (x * f)
    return rows


def F(rows):
    return np.array([[float(x) for x in r] for r in rows])


def outrows(text):
    return [l.split() for l in text.splitlines() if not l.startswith("#")]


def comments(text):
    return [l for l in text.splitlines() if l.startswith("#")]


def same(got, want, what, rel=REL, scale=0.0):
    expect(len(got) == len(want), "%s: %d rows instead of %d: %r" % (what, len(got), len(want), got[:3]))
    for i, (g, w) in enumerate(zip(got, want)):
        expect(len(g) == len(w), "%s: row %d is %r instead of %r" % (what, i, g, w))
        for a, b in zip(g, w):
            if isinstance(b, str):
                expect(a == b, "%s: row %d: %r instead of %r" % (what, i, a, b))
                continue
            try:
                x = float(a)
            except ValueError:
                raise Violation("%s: row %d: %r is not a number (%r expected)" % (what, i, a, b))
            expect(abs(x - b) <= rel * max(abs(b), scale) + 1e-300, "%s: row %d: %r instead of %.15g" % (what, i, a, b))


def number_of(r, what):
    t = r.out.split()
    expect(len(t) == 1, "%s prints %r %r" % (what, r.out, r.err[:200]))
    return float(t[0])


# ---------------------------------------------------------------------------------------------------- scripts that change columns of a table
def dropfirst(f):
    return lambda v, a: f(v, a)


COLS = {
    # name: (arguments, rows -> rows (or None: the line is dropped), comments copied?, rows untouched as strings?)
    "scalex": lambda r, a: [float(r[0]) * a[0]] + r[1:],
    "scaley": lambda r, a: [r[0], float(r[1]) * a[0]] + r[2:],
    "scalexy": lambda r, a: [float(r[0]) * a[0], float(r[1]) * a[1]] + r[2:],
    "shiftx": lambda r, a: [float(r[0]) + a[0]] + r[1:],
    "shifty": lambda r, a: [r[0], float(r[1]) + a[0]] + r[2:],
    "inverty": lambda r, a: [r[0], 1 / float(r[1])] + r[2:],
    "divybyx": lambda r, a: [r[0], float(r[1]) / float(r[0])] + r[2:],
    "multiplybyfirst": lambda r, a: [r[0], float(r[1]) * float(r[0])] + r[2:],
    "cutouthigh": lambda r, a: r if abs(float(r[0])) <= a[0] else None,
    "cutoutlow": lambda r, a: r if abs(float(r[0])) >= a[0] else None,
    "filt": lambda r, a: r if float(r[0]) >= 0 else None,
    "abs": lambda r, a: r[:a[0] - 1] + [abs(float(r[a[0] - 1]))] + r[a[0]:],
    "clipy": lambda r, a: [r[0], min(max(float(r[1]), a[1]), a[2])],
    "column": lambda r, a: [r[a[0] - 1]],
    "columns": lambda r, a: [r[i - 1] for i in a],
    "restrict": lambda r, a: r if {"<": float(r[0]) < a[1], ">=": float(r[0]) >= a[1], "==": float(r[0]) == a[1]}[a[0]] else None,
    "positivepart": lambda r, a: r if float(r[0]) > 0 else None,
    "negativepart": lambda r, a: r if float(r[0]) < 0 else None,
    "mapcol": lambda r, a: r[:a[0] - 1] + [FN[a[1]](float(r[a[0] - 1]))] + r[a[0]:],
    "mapxy": lambda r, a: [FN[a[0]](float(r[0])), FN[a[1].replace("$y", "$x")](float(r[1]))] + r[2:],
    "column1": lambda r, a: [r[0]],
    "column2": lambda r, a: [r[1]],
}
FN = {"2*$x": lambda x: 2 * x, "abs($x)": abs, "$x**2": lambda x: x ** 2, "-$x+1": lambda x: 1 - x, "$x/3": lambda x: x / 3}
KEEPS = {"scalex", "scaley", "scalexy", "shiftx", "shifty", "inverty", "divybyx", "multiplybyfirst", "cutouthigh", "cutoutlow", "filt", "mapcol", "mapxy"}


@st.composite
def colcases(draw):
    t = draw(st.sampled_from(sorted(COLS)))
    rows = draw(tab(nonzero=t in ("inverty", "divybyx")))
    n = len(rows[0])
    x = float(draw(number()))
    edge = [abs(float(r[0])) for r in rows]
    a = {"abs": [draw(st.integers(1, n))], "column": [draw(st.integers(1, n))], "columns": draw(st.lists(st.integers(1, n), min_size=1, max_size=4)),
         "cutouthigh": [draw(st.sampled_from(edge + [abs(x)]))], "cutoutlow": [draw(st.sampled_from(edge + [abs(x)]))], "filt": [],
         "scalexy": [x, float(draw(number()))], "mapcol": [draw(st.integers(1, n)), draw(st.sampled_from(sorted(FN)))],
         "mapxy": [draw(st.sampled_from(sorted(FN))), draw(st.sampled_from(sorted(FN))).replace("$x", "$y")],
         "restrict": [draw(st.sampled_from(["<", ">=", "=="])), draw(st.sampled_from([float(r[0]) for r in rows] + [x]))]}.get(t, [x])
    if t == "clipy":
        ys = sorted([draw(st.sampled_from([float(r[1]) for r in rows] + [x])), float(draw(number()))])
        m = draw(st.sampled_from(["b", "t", "bt"]))
        a = [m, ys[0] if "b" in m else -math.inf, ys[1] if "t" in m else math.inf]
    return {"tool": t, "rows": rows, "lay": draw(layout(len(rows))) if t not in ("column1", "column2") else NOCOM, "args": a,
            "stdin": draw(st.booleans())}


def run_columns(case, ctx):
    proc.clean(ctx["wd"])
    t, a = case["tool"], case["args"]
    text = emit(case["rows"], case["lay"])
    g = lambda v: repr(v)
    cmd = {"clipy": [a[0] if a else ""] + [g(v) for v in a[1:] if math.isfinite(v)] if t == "clipy" else None,
           "restrict": ["$x %s %r" % (a[0], a[1])] if t == "restrict" else None,
           "filt": ["p"], "mapcol": a, "mapxy": a, "columns": a, "abs": a}.get(t)
    if cmd is None:
        cmd = [g(v) for v in a] if t in ("scalex", "scaley", "scalexy", "shiftx", "shifty", "cutouthigh", "cutoutlow") else []
    proc.write(ctx["wd"], {"in.dat": text})
    if t in ("column", "columns"):
        r = call(ctx, [t, "in.dat"] + a)
    elif t in ("mapcol", "mapxy", "column1", "column2") or case["stdin"]:
        r = call(ctx, [t] + cmd, stdin=text)
    else:
        r = call(ctx, [t] + cmd + ["in.dat"])
    expect(r.rc == 0, "%s fails: %r" % (t, r))
    want = [COLS[t](row, a) for row in case["rows"]]
    sc = max([abs(v) for v in a if isinstance(v, float) and math.isfinite(v)] + [0.0]) if t.startswith("shift") or t.startswith("map") else 0.0
    if t.startswith("map"):
        sc = 1.0
    # the strings that are not changed must survive
    same(outrows(r.out), [w for w in want if w is not None], t, scale=sc)
    if t in KEEPS:
        expect(comments(r.out) == comments(text), "%s: comments %r instead of %r" % (t, comments(r.out), comments(text)))
    else:
        expect(not comments(r.out), "%s: comments are printed" % t)
    return [t] + (["nontrivial"] if len(case["rows"]) >= 3 else [])


# ------------------------------------------------------------------------------------------------------------------ integrals, moments, means
def trap(x, y):
    return (np.diff(x) * (y[1:] + y[:-1]) / 2)


def mom(x, y, m):
    return (trap(x, y) * ((x[1:] + x[:-1]) / 2) ** m).sum()


def clipint(x, y, a, b):
    s = 0.0
    for x0, x1, y0, y1 in zip(x[:-1], x[1:], y[:-1], y[1:]):
        l, h = max(x0, a), min(x1, b)
        if l < h:
            f = lambda v: y0 + (y1 - y0) * (v - x0) / (x1 - x0)
            s += (h - l) * (f(l) + f(h)) / 2
    return s


INT = {
    "integrate": lambda x, y, a: trap(x, y).sum(),
    "integrateabs": lambda x, y, a: trap(x, np.abs(y)).sum(),
    "integrateeps": lambda x, y, a: mom(x, y, 1),
    "integratepos": lambda x, y, a: trap(x, y)[(x[1:] >= 0) & (x[:-1] >= 0)].sum(),
    "integrateneg": lambda x, y, a: trap(x, y)[(x[1:] < 0) & (x[:-1] < 0)].sum(),
    "integratenegabs": lambda x, y, a: trap(x, np.abs(y))[(x[1:] < 0) & (x[:-1] < 0)].sum(),
    "integrateab": lambda x, y, a: clipint(x, y, *(a or (-1.0, 1.0))),
    "moment1": lambda x, y, a: mom(x, y, 1), "moment2": lambda x, y, a: mom(x, y, 2), "moment3": lambda x, y, a: mom(x, y, 3),
    "moment4": lambda x, y, a: mom(x, y, 4),
    "moments": None, "interpolate": None, "interpolate_slope": None, "columnavg": None, "columnavg_comment": None, "mean": None, "normalize": None,
    "mesh_union": None, "optimize_mesh": None, "tk": None,
}


@st.composite
def intcases(draw):
    t = draw(st.sampled_from(sorted(INT)))
    one = t in ("mean", "tk")
    rows = draw(tab(lo=2 if not one else 1, cols=1 if t == "mean" else None, sort=not one, positive=t in ("integrateabs", "integratenegabs", "normalize")))
    if t in ("integrateabs", "integratenegabs") and draw(st.booleans()):
        rows = [[r[0], "-" + r[1]] + r[2:] for r in rows]
    if t == "optimize_mesh" and draw(st.booleans()):
        k = draw(st.integers(0, len(rows)))
        rows = [r if i < k else [r[0], "0"] + r[2:] for i, r in enumerate(rows)]
    xs = F(rows)[:, 0]
    a = []
    if t == "integrateab" and draw(st.booleans()):
        w = [draw(st.floats(float(xs[0]) - 1, float(xs[-1]) + 1)) for _ in range(2)]
        if draw(st.booleans()):
            w[0] = float(draw(st.sampled_from(list(xs))))
        a = sorted(float("%.9g" % v) for v in w)
    if t.startswith("interp"):
        f = draw(st.floats(0, 1))
        a = [draw(st.sampled_from([float(v) for v in xs] + [float("%.12g" % (xs[0] + f * (xs[-1] - xs[0])))] * len(xs)))]
        a = [min(max(a[0], float(xs[0])), float(xs[-1]))]
    if t == "tk":
        a = [float(draw(number(pos=True))), float(draw(number(pos=True)))]
    if t == "optimize_mesh":
        a = [draw(st.sampled_from([0.5, 0.1, 1e-2])), draw(st.sampled_from([1e-12, 0.3])), draw(st.sampled_from([1e-4, 0.2]))]
    rows2 = draw(tab(sort=True)) if t == "mesh_union" else None
    com = t in ("integrate", "integrateeps", "normalize", "interpolate", "interpolate_slope", "columnavg", "columnavg_comment", "mesh_union", "optimize_mesh")
    lay = draw(layout(len(rows)))
    if not com:
        lay["com"] = []
    return {"tool": t, "rows": rows, "rows2": rows2, "lay": lay, "args": a, "stdin": draw(st.booleans())}


def run_integrals(case, ctx):
    proc.clean(ctx["wd"])
    t, a, rows = case["tool"], case["args"], case["rows"]
    text = emit(rows, case["lay"])
    proc.write(ctx["wd"], {"in.dat": text})
    files = t in ("integrateab", "interpolate", "interpolate_slope", "normalize", "optimize_mesh")
    lab = [t] + (["nontrivial"] if len(rows) >= 3 else [])
    d = F(rows)
    if t == "tk":
        r = call(ctx, [t] + [repr(v) for v in a])
        v = dict(l.split("=") for l in r.out.split("\n") if l)
        J = 8 * a[1] / (3.14159 * a[0])
        expect(abs(float(v["rho_0 J"]) - J) <= 1e-5 * J, "tk: rho J")
        x = 0.182 * a[0] * math.sqrt(J) * math.exp(-1 / J)
        expect(abs(float(v["T_K"]) - x) <= 1e-4 * (1 + 1 / J) * x + 1e-300, "tk: T_K=%s instead of %r" % (v["T_K"], x))
        return lab + ["nontrivial"]
    x, y = d[:, 0], d[:, min(1, d.shape[1] - 1)]
    if t == "mesh_union":
        proc.write(ctx["wd"], {"in2.dat": emit(case["rows2"], NOCOM)})
        r = call(ctx, [t, "in.dat", "in2.dat"])
        m = np.concatenate([x, F(case["rows2"])[:, 0]])
        m = np.sort(np.concatenate([m, -m]))
        keep = [0] + [i for i in range(1, len(m)) if 2 * abs(m[i] - m[i - 1]) / (abs(m[i]) + abs(m[i - 1]) + 1e-38) > 1e-8]
        if any(1e-9 < 2 * abs(p - q) / (abs(p) + abs(q) + 1e-38) < 1e-7 for p, q in zip(m[1:], m)):
            raise Invalid()
        same(outrows(r.out), [[m[i], 0.0] for i in keep], t)
        return lab
    r = call(ctx, [t] + (["in.dat"] if files or not case["stdin"] else []) + [repr(v) for v in a], stdin=text)
    if t == "optimize_mesh":
        expect(r.rc == 0, "optimize_mesh fails: %r" % r)
        return lab + refine(case, r.out, x, y, a)
    if t not in ("interpolate", "interpolate_slope"):        # these end with 1 after printing the result
        expect(r.rc == 0, "%s fails: %r" % (t, r))
    big = np.abs(y).max() * (x[-1] - x[0]) * max(1.0, np.abs(x).max())
    if INT[t]:
        v = number_of(r, t)
        w = INT[t](x, y, a)
        m = np.abs(x).max() ** (int(t[-1]) - 1) if t[:-1] == "moment" else 1.0
        expect(abs(v - w) <= REL * max(abs(w), big * max(1.0, m)), "%s: %.15g instead of %.15g" % (t, v, w))
    elif t == "moments":
        same(outrows(r.out), [[mom(x, y, m)] for m in range(1, 5)], t, scale=big * max(1.0, np.abs(x).max()) ** 3)
    elif t in ("columnavg", "columnavg_comment"):
        same(outrows(r.out), [list(d.mean(0))], t, scale=np.abs(d).max())
        expect(comments(r.out) == (comments(text) if t != "columnavg" else []), t + ": comments")
    elif t == "mean":
        expect(abs(number_of(r, t) - d[:, 0].mean()) <= REL * np.abs(d).max(), "mean: %r instead of %.15g" % (r.out, d[:, 0].mean()))
    elif t == "normalize":
        s = trap(x, y).sum()
        same(outrows(r.out), [[a_[0], float(a_[1]) / s] + a_[2:] for a_ in rows], t)
    else:
        k = [i for i in range(len(x) - 1) if x[i] <= a[0] <= x[i + 1]]
        v = number_of(r, t)
        sl = [(y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in k]
        ok = [y[i] + s * (a[0] - x[i]) for i, s in zip(k, sl)] if t == "interpolate" else sl
        tol = REL * max(np.abs(y).max(), max(abs(s) for s in sl) * (x[-1] - x[0] if t == "interpolate" else 1) + (np.abs(y).max() / np.diff(x).min() if t != "interpolate" else 0))
        expect(any(abs(v - w) <= tol for w in ok), "%s at %r: %r instead of %r" % (t, a[0], v, ok))
    return lab


def refine(case, out, x, y, a):
    """the points of the mesh stay, midpoints are added where the extrapolation from the previous points is poor"""
    delta, dxmin, miny = a
    got = outrows(out)
    want = []
    n = 0
    for i in range(len(x)):
        if i >= 2:
            e = y[i - 1] + (y[i - 1] - y[i - 2]) / (x[i - 1] - x[i - 2]) * (x[i] - x[i - 1])
            s = abs(y[i]) + abs(e)
            rel = 2 * abs(y[i] - e) / s if s else 0.0
            conds = [(rel, delta), (x[i] - x[i - 1], dxmin), (abs(y[i]) + abs(y[i - 1]), 2 * miny)]
            if any(abs(p - q) <= 1e-9 * max(abs(q), 1) for p, q in conds):
                raise Invalid()
            x0 = x[i - 1] + (x[i] - x[i - 1]) / 2
            if 0 < abs(x0) < 1e-12 * abs(x[i]):
                raise Invalid()
            if all(p > q for p, q in conds) and abs(x0) > 1e-38:
                want.append([x0, (y[i] + y[i - 1]) / 2])
                n += 1
        want.append([x[i], y[i]])
    same([g[:2] for g in got], want, "optimize_mesh", scale=1e-3 * np.abs(y).max())
    return ["refined"] if n else []


# ---------------------------------------------------------------------------------------------------------------- several files into one
PAIRS = {
    "subtract": lambda a, b: [p - q for p, q in zip(a, b)],
    "subtracty": lambda a, b: a[:1] + [p - q for p, q in zip(a[1:], b[1:])],
    "subtracty3": lambda a, b: a[:2] + [p - q for p, q in zip(a[2:], b[2:])],
    "subtractysq": lambda a, b: a[:1] + [p - q * q for p, q in zip(a[1:], b[1:])],
    "divy": lambda a, b: a[:1] + [p / q if q else 0.0 for p, q in zip(a[1:], b[1:])],
    "multy": lambda a, b: [a[0], a[1] * b[1]] + a[2:],
    "sumy": lambda a, b: [a[0], a[1] + b[1]] + a[2:],
    "mixy": None, "joincolumns": None, "averagefiles": None, "averagefiles3": None, "averagefiles4": None, "averagefiles_mc": None, "mixfiles": None,
    "average.pl": None,
}


@st.composite
def paircases(draw):
    t = draw(st.sampled_from(sorted(PAIRS)))
    many = t.startswith("average") or t == "mixfiles"
    first = draw(tab(cols=draw(st.integers(4, 5)) if many else None))
    k = draw(st.integers(2, 4)) if many else 2
    f = [first] + [[[r[0]] + [draw(number()) for _ in r[1:]] for r in first] for _ in range(k - 1)]
    if draw(st.integers(0, 2)) == 0 and t in ("subtract", "joincolumns", "averagefiles"):
        f[1] = [[draw(number())] + r[1:] for r in f[1]]
    if t == "averagefiles_mc" and draw(st.integers(0, 2)) == 0:
        f = [first] * k      # no fluctuations at all
    if t == "divy" and draw(st.booleans()):
        f[1] = [[r[0]] + [draw(st.sampled_from([v, "0"])) for v in r[1:]] for r in f[1]]
    return {"tool": t, "files": f, "lay": draw(layout(len(first))), "w": [float(draw(number())) for _ in range(k)]}


def run_pairs(case, ctx):
    proc.clean(ctx["wd"])
    t, fs = case["tool"], case["files"]
    texts = [emit(f, case["lay"]) for f in fs]
    names = ["%d.dat" % (i + 1) for i in range(len(fs))]
    proc.write(ctx["wd"], dict(zip(names, texts)))
    lab = [t] + (["nontrivial"] if len(fs[0]) >= 2 else [])
    d = [F(f) for f in fs]
    big = max(np.abs(x).max() for x in d)
    if t == "average.pl":
        open(os.path.join(ctx["bin"], "..", "avg_driver.pl"), "w") if False else None
        proc.write(ctx["wd"], {"drv.pl": 'require "%s/average.pl"; avg(%d, ".dat", "out.avg");\n' % (ctx["bin"], len(fs))})
        os.chown(ctx["wd"], nobody(), -1) if os.getuid() == 0 else None
        kw = {"user": nobody(), "group": nobody(), "extra_groups": []} if os.getuid() == 0 else {}
        p = subprocess.run(["perl", "drv.pl"], cwd=ctx["wd"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, **kw)
        expect(p.returncode == 0, "average.pl fails: %r" % p.stderr[-300:])
        out = proc.read(ctx["wd"], "out.avg")
    else:
        cmd = [t] + names
        if t in ("mixy", "mixfiles"):
            cmd = [t] + [v for w, n in zip(case["w"], names) for v in (repr(w), n)]
        r = call(ctx, cmd)
        expect(r.rc == 0, "%s fails: %r" % (t, r))
        out = r.out
    ncol = {"averagefiles3": 3, "averagefiles4": 4}.get(t, 2)
    tol = {"rel": REL, "scale": 0.0}
    if t == "joincolumns":
        want = [a + b for a, b in zip(*fs)]
    elif t == "mixy":
        want = [[a[0], case["w"][0] * float(a[1]) + case["w"][1] * float(b[1])] + a[2:] for a, b in zip(*fs)]
        tol["scale"] = 0.01 * max(abs(w) for w in case["w"]) * big
    elif t == "mixfiles":
        want = [[np.mean([x[i, 0] for x in d]), sum(w * x[i, 1] for w, x in zip(case["w"], d))] for i in range(len(fs[0]))]
        tol["scale"] = 0.01 * max(abs(w) for w in case["w"]) * big
    elif t == "averagefiles_mc":
        want = []
        n = len(fs)
        for i in range(len(fs[0])):
            y = [float(f[i][1]) for f in fs]
            c4 = 1 - 0.25 / n - 7 / 32 / n ** 2
            want.append([np.mean([x[i, 0] for x in d]), np.mean(y), np.std(y) / math.sqrt(n) / c4])
        got = outrows(out)
        same([g[:2] for g in got], [w[:2] for w in want], t, scale=big)
        for i, (g, w) in enumerate(zip(got, want)):
            # the variance is a difference of squares
            expect(abs(float(g[2]) ** 2 - w[2] ** 2) <= 1e-12 * max(abs(float(f[i][1])) for f in fs) ** 2, "averagefiles_mc: error %s instead of %r" % (g[2], w[2]))
        return lab
    elif t.startswith("average"):
        want = [[np.mean([x[i, c] for x in d]) for c in range(ncol)] for i in range(len(fs[0]))]
        tol["scale"] = 0.01 * big
    else:
        want = [PAIRS[t]([float(v) for v in a], [float(v) for v in b]) for a, b in zip(*fs)]
        tol["scale"] = big if t[:3] == "sub" else big * 0.01
        if t == "subtractysq":
            tol["scale"] = big ** 2
    same(outrows(out), want, t, **tol)
    if t in ("subtract", "subtracty", "subtracty3", "subtractysq", "divy", "multy", "sumy", "mixy"):
        c = comments(texts[0])
        expect(comments(out) == c, "%s: comments %r instead of %r" % (t, comments(out), c))
    return lab


# -------------------------------------------------------------------------------------------------------------- lines, blocks, rearrangements
LINES = ["keepeven", "keepodd", "keeponecomment", "keeplastcomment", "prependtoeachline", "sortnum", "block", "lastblock", "firstblock", "aligncolumns",
         "invertx", "symmetrize", "split_by_first_column", "split", "extract", "extractcolumn", "extractcolumns", "report"]


@st.composite
def linecases(draw):
    t = draw(st.sampled_from(LINES))
    rows = draw(tab(even=t in ("invertx", "symmetrize"), cols=2 if t in ("invertx", "symmetrize") else None, sort=t in ("split_by_first_column", "invertx", "symmetrize"), distinct=t == "sortnum"))
    case = {"tool": t, "rows": rows, "lay": draw(layout(len(rows)))}
    n = len(rows)
    if t in ("invertx", "symmetrize", "split_by_first_column", "block", "lastblock", "firstblock"):
        case["lay"]["com"] = []
    if t == "split_by_first_column":
        rows = case["rows"] = [r for r in rows for _ in range(draw(st.integers(1, 3)))]
        case["rows"] = [[r[0]] + [draw(number()) for _ in r[1:]] for r in rows]
    if t in ("block", "lastblock", "firstblock"):
        case["cut"] = sorted(set(draw(st.lists(st.integers(1, max(1, n - 1)), max_size=4))) - {n})
        case["end"] = draw(st.booleans())
        case["n"] = draw(st.integers(1, len(case["cut"]) + 1))
        case["gz"] = draw(st.booleans())
    if t in ("keepeven", "keepodd"):
        case["lay"]["com"] = []
    if t in ("extractcolumn", "extractcolumns", "report"):
        names = draw(st.permutations(["T", "<n_d>", "a1", "Sz", "n^2", "n"]))[:len(rows[0])]
        case["names"] = list(names)
        case["pick"] = draw(st.lists(st.integers(0, len(names) - 1), min_size=1, max_size=3, unique=True))
        case["head"] = draw(st.integers(0, 2))
    if t in ("split", "extract"):
        k = draw(st.integers(1, 4))
        case["blocks"] = [[["%.8g" % draw(st.floats(0, 3)), str(draw(st.integers(-1, 1))), str(draw(st.integers(1, 3)))] for _ in range(draw(st.integers(1, 6)))]
                          for _ in range(k)]
        b = draw(st.sampled_from(case["blocks"]))
        q = draw(st.sampled_from(b))
        case["sel"] = [draw(st.sampled_from("eo")), q[1], q[2], draw(st.integers(1, 2))]
    return case


def run_lines(case, ctx):
    proc.clean(ctx["wd"])
    t, rows, lay = case["tool"], case["rows"], case["lay"]
    wd = ctx["wd"]
    lab = [t] + (["nontrivial"] if len(rows) >= 3 else [])
    text = emit(rows, lay)
    L = text.splitlines()
    if t in ("block", "lastblock", "firstblock"):
        b, prev = [], 0
        for c in case["cut"] + [len(rows)]:
            b.append(emit(rows[prev:c], lay))
            prev = c
        text = "\n".join(b) + ("\n" if case["end"] else "")
        n = case["n"]
        if t == "firstblock":
            r = call(ctx, [t], stdin=text)
            want = b[0]
        else:
            proc.write(wd, {"in.dat": text})
            fn = "in.dat"
            if case["gz"]:
                subprocess.check_call(["gzip", "in.dat"], cwd=wd)
                fn += ".gz"
            r = call(ctx, [t, fn] + ([n] if t == "block" else []))
            want = b[n - 1] if t == "block" else b[-1]
        expect(r.out == want, "%s of %r: %r instead of %r" % (" ".join([t] + ([str(n)] if t == "block" else [])), text, r.out, want))
        return lab + (["blocks"] if len(b) > 1 else [])
    if t in ("split", "extract"):
        text = "# annotated\n" + "".join("".join(" ".join(l) + "\n" for l in b) + "\n" for b in case["blocks"])
        proc.write(wd, {"annotated.dat": text, "e-0-9.dat": "old\n", "keep-1-1.dat": "x\n"})
        if t == "extract":
            p, q, s, nr = case["sel"]
            r = call(ctx, [t] + case["sel"])
            want = []
            for i, b in enumerate(case["blocks"]):
                m = [l for l in b if l[1] == q and l[2] == s]
                if (i % 2 == 0) == (p == "e") and len(m) >= nr:
                    want.append([str(i), m[nr - 1][0]])
            got = [l.split() for l in r.out.splitlines() if l]
            expect(got == want, "extract %s: %r instead of %r" % (" ".join(map(str, case["sel"])), got, want))
            return [t, "nontrivial"]
        call(ctx, [t])
        want = {"keep-1-1.dat": [["x"]]}
        for i, b in enumerate(case["blocks"]):
            for l in b:
                want.setdefault("%s-%s-%s.dat" % ("eo"[i % 2], l[1], l[2]), []).append([str(i), l[0]])
        got = {f: [l.split() for l in open(os.path.join(wd, f))] for f in os.listdir(wd) if f != "annotated.dat"}
        expect(got == want, "split: %r instead of %r" % (got, want))
        return [t, "nontrivial"]
    if t in ("extractcolumn", "extractcolumns", "report"):
        head = ["# old header", "# 1 2 3"][:case["head"]]
        text = "".join(h + "\n" for h in head) + "# " + lay["sep"].join(case["names"]) + "\n" + emit(rows, dict(lay, com=[]))
        proc.write(wd, {"in.dat": text})
        pick = case["pick"] if t != "extractcolumn" else case["pick"][:1]
        r = call(ctx, [t, "in.dat"] + (["pre"] if t == "report" else []) + [case["names"][i] for i in pick])
        expect(r.rc == 0, "%s fails: %r" % (t, r))
        if t != "report":
            same(outrows(r.out), [[row[i] for i in pick] for row in rows], t)
            return lab
        for i in pick:
            fn = "pre-%s.dat" % re.sub(r"[^\w.-]", "", case["names"][i])
            x = proc.read(wd, fn)
            expect(x is not None, "report: %s is missing" % fn)
            if i:
                same(outrows(x), [[row[0], row[i]] for row in rows], "report " + case["names"][i])
        return lab
    if t == "split_by_first_column":
        proc.write(wd, {"in.dat": text, "in.dat_9": "old\n"})
        call(ctx, [t, "in.dat"])
        want, c, prev = {}, 0, None
        for l, r in zip(L, rows):
            c = c + 1 if prev is not None and float(r[0]) == prev else 1
            prev = float(r[0])
            want.setdefault("in.dat_%d" % c, []).append(l)
        got = {f: open(os.path.join(wd, f)).read().splitlines() for f in os.listdir(wd) if f != "in.dat"}
        expect(got == want, "split_by_first_column: %r instead of %r" % (got, want))
        return lab
    if t in ("invertx", "symmetrize"):
        proc.write(wd, {"in.dat": text})
        r = call(ctx, [t, "in.dat"])
        expect(r.rc == 0, "%s fails: %r" % (t, r))
        y = [float(row[1]) for row in rows]
        z = y[::-1] if t == "invertx" else [(p + q) / 2 for p, q in zip(y, y[::-1])]
        same(outrows(r.out if t == "invertx" else proc.read(wd, "in.dat")), [[row[0], v] for row, v in zip(rows, z)], t, scale=np.abs(y).max() if t != "invertx" else 0)
        return lab
    if t == "keeplastcomment" and not comments(text):
        text = "# a\n" + text
        L = text.splitlines()
    r = call(ctx, [t] + (["ab c"] if t == "prependtoeachline" else []), stdin=text)
    expect(r.rc == 0, "%s fails: %r" % (t, r))
    data = [l for l in L if not l.startswith("#")]
    com = comments(text)
    if t in ("keepeven", "keepodd"):
        want = L[(1 if t == "keepeven" else 0)::2]
    elif t == "prependtoeachline":
        want = ["ab c " + l for l in L]
    elif t == "sortnum":
        want = com + sorted(data, key=lambda l: float(l.split()[0]))
    elif t == "keeponecomment":
        want = [l for i, l in enumerate(L) if not l.startswith("#") or i == min(j for j, m in enumerate(L) if m.startswith("#"))]
    elif t == "keeplastcomment":
        k = next(i for i, l in enumerate(L) if not l.startswith("#"))
        if not k:
            raise Invalid()
        want = [L[k - 1]] + data
    else:
        got = outrows(r.out)
        same(got, rows, t)
        expect(len({len(l) for l in r.out.splitlines() if not l.startswith("#")}) == 1, "aligncolumns: lines of different lengths")
        expect(comments(r.out) == com, "aligncolumns: comments")
        return lab
    expect(r.out.splitlines() == want, "%s: %r instead of %r" % (t, r.out.splitlines(), want))
    return lab


# ------------------------------------------------------------------------------------------------------- parameter files, runs and sweeps
RUNS = ["getparam", "setparam", "getNz", "getparamspace", "newiter", "getxi", "getxi_scaled", "gettotalenergy", "looper", "gather", "gatherlastlines",
        "gatherfiles", "gathertd", "gathertd_nosrt", "gathercustom_nosrt", "gatherE", "custparam", "cpdelta", "cpdeltafrom"]
KEYS = ["T", "Nmax", "Tmin", "xT", "symtype", "keep", "U1", "U"]


@st.composite
def runcases(draw):
    t = draw(st.sampled_from(RUNS))
    keys = draw(st.permutations(KEYS))[:draw(st.integers(1, 6))]
    case = {"tool": t, "par": [[k, draw(st.one_of(number(), st.sampled_from(["QS", "a b", "1e-3 ", "true"])))] for k in keys], "key": draw(st.sampled_from(KEYS)),
            "style": draw(st.sampled_from(["=", " = ", "= "])), "lead": draw(st.sampled_from(["", " ", "\t"])), "val": draw(number()), "n": draw(st.integers(0, 12)),
            "dirs": draw(st.lists(st.integers(1, 120), min_size=1, max_size=5, unique=True)),
            "loop": draw(st.lists(st.sampled_from(["$a=1;$a<=3;$a++", "$b=0.5;$b<2;$b++", "$c=2;$c<=8;$c*=2"]), min_size=1, max_size=2, unique=True)),
            "mode": draw(st.sampled_from(["", "", "CONTINUE", "STOP", "OVERWRITE"])), "xs": draw(st.lists(number(), min_size=6, max_size=6))}
    case["done"] = [draw(st.booleans()) for _ in case["dirs"]]
    case["sub"] = draw(st.booleans())
    return case


def run_runs(case, ctx):
    proc.clean(ctx["wd"])
    t, wd = case["tool"], ctx["wd"]
    W = lambda f, s: (os.makedirs(os.path.dirname(os.path.join(wd, f)) or wd, exist_ok=True), proc.write(wd, {f: s}))
    rd = lambda f: proc.read(wd, f)
    par = case["par"]
    lines = ["[param]\n", "# T=77\n"] + ["%s%s%s%s\n" % (case["lead"], k, case["style"], v) for k, v in par]
    text = "".join(lines)
    d = dict(par)
    lab = [t] + (["nontrivial"] if len(par) > 1 or len(case["dirs"]) > 1 else [])
    dirs, done, xs = case["dirs"], case["done"], case["xs"]
    if t in ("getparam", "setparam"):
        fn = "param" if case["sub"] else "other.par"
        W(fn, text)
        extra = [] if case["sub"] else [fn]
        k = case["key"]
        if t == "getparam":
            r = call(ctx, [t, k] + extra)
            if k in d:
                expect(r.rc == 0 and r.out.rstrip("\n") == d[k], "getparam %s from %r: %r instead of %r" % (k, text, r.out, d[k]))
            else:
                expect(r.out == "", "getparam %s from %r prints %r" % (k, text, r.out))
            return lab
        r = call(ctx, [t, k, case["val"]] + extra)
        expect(r.rc == 0, "setparam fails: %r" % r)
        want = [l if i < 2 or par[i - 2][0] != k else "%s=%s\n" % (k, case["val"]) for i, l in enumerate(lines)]
        if k not in d:
            want.append("%s=%s\n" % (k, case["val"]))
        expect(rd(fn) == "".join(want), "setparam %s %s on %r: %r" % (k, case["val"], text, rd(fn)))
        expect(not os.path.exists(os.path.join(wd, fn + ".tmp")), "setparam leaves a temporary file")
        return lab
    if t == "getparamspace":
        W("param", "".join("%s %s\n" % (k, v.split()[0]) for k, v in par))
        r = call(ctx, [t, case["key"]])
        expect(r.out.split() == ([d[case["key"]].split()[0]] if case["key"] in d else []), "getparamspace: %r" % r.out)
        return lab
    if t == "getNz":
        fn = "param.loop" if case["sub"] else "x.loop"
        W(fn, "#AUTOLOOP: nrg\n[extra]\n!$Nz=%d;\n@$z=1;$z<=$Nz;$z++\nz=$z\n" % (case["n"] + 1))
        r = call(ctx, [t] + ([] if case["sub"] else [fn]))
        expect(r.rc == 0 and r.out.split() == [str(case["n"] + 1)], "getNz%s: %r instead of %d" % ("" if case["sub"] else " " + fn, r, case["n"] + 1))
        return lab + ["nontrivial"]
    if t == "newiter":
        dd = ["d"] if case["sub"] else []
        f = "d/ITER" if case["sub"] else "ITER"
        os.makedirs(os.path.join(wd, "d"), exist_ok=True)
        if case["n"]:
            W(f, "%d" % case["n"] + ("\n" if case["done"][0] else ""))
        r = call(ctx, ["getiter"] + dd)
        expect(r.out == str(case["n"]), "getiter: %r instead of %d" % (r.out, case["n"]))
        for i in (1, 2):
            call(ctx, ["newiter"] + dd)
            r = call(ctx, ["getiter"] + dd)
            expect(r.out == str(case["n"] + i), "getiter after newiter: %r instead of %d" % (r.out, case["n"] + i))
        return lab + ["nontrivial"]
    if t == "getxi":
        n = case["n"] % 5
        W("data", "# header\nz\n%d\n%s%d\n%s" % (n, "".join(x + "\n" for x in xs[:n + 1]), n, "9\n" * (n + 1)))
        call(ctx, [t])
        expect(rd("xi").split() == xs[:n + 1], "getxi: %r instead of %r" % (rd("xi"), xs[:n + 1]))
        return lab
    if t == "getxi_scaled":
        W("log", "".join("[%d] xi(0)=1.5 xi_scaled(0)=%s zeta(1)=0.3\nCmax=1\n" % (i, x) for i, x in enumerate(xs)))
        call(ctx, [t])
        expect(rd("xi_scaled").split() == xs, "getxi_scaled: %r instead of %r" % (rd("xi_scaled"), xs))
        return lab
    if t == "gettotalenergy":
        fn = "log" if case["sub"] else "run.log"
        W(fn, "Egs=3\nTotal energy: %s\nTotal energy:x\n" % xs[0])
        if done[0]:
            subprocess.check_call(["gzip", fn], cwd=wd)
        r = call(ctx, [t] + ([] if case["sub"] else [fn]))
        expect(r.out == xs[0] and r.rc == 0, "gettotalenergy: %r instead of %r" % (r, xs[0]))
        return lab
    if t == "looper":
        return lab + run_looper(case, ctx)
    if t in ("cpdelta", "cpdeltafrom"):
        n = case["n"]
        src = "src/" if t == "cpdeltafrom" else ""
        W(src + "ITER", str(n))
        names = {0: ["Delta"], 1: ["Delta-u", "Delta-d"], 2: ["Delta-11", "Delta-12", "Delta-21", "Delta-22"]}[n % 3]
        for m in (n, n + 1, n + 10):
            for i, x in enumerate(names):
                W("%sdmft/%d-%s.dat" % (src, m, x), "%d %d\n" % (m, i))
        r = call(ctx, [t] + (["src"] if src else []))
        for i, x in enumerate(names):
            f = "DeltaFirst" + x[5:] + ".dat"
            expect(rd(f) == "%d %d\n" % (n, i), "%s: %s holds %r" % (t, f, rd(f)))
        return lab + ["nontrivial"]
    # runs in numbered directories
    if t == "gatherfiles":
        want = []
        for i, (n, dn) in enumerate(zip(dirs, done)):
            nm = "U=%d_T=%s" % (n, xs[i].lstrip("-"))
            W(nm + "/out", (xs[-1] + " 7\n") if dn else "")
            if dn:
                want.append([str(n), xs[i].lstrip("-"), xs[-1], "7"])
        if not want:
            raise Invalid()
        call(ctx, [t, "out"])
        want.sort(key=lambda l: float(l[0]))
        expect([l.split() for l in rd("out").splitlines()] == want, "gatherfiles: %r instead of %r" % (rd("out"), want))
        return lab
    rows = {}
    for i, (n, dn) in enumerate(zip(dirs, done)):
        rows[n] = [xs[i], "%d.5" % n, "-3"]
        body = "# first\n#  T  <n>  E\n    1 2 3\n  " + "  ".join(rows[n]) + "\n"
        W("%d/custom" % n, body)
        W("%d/td" % n, "# T\n" + " ".join(rows[n]) + "\n")
        W("%d/param" % n, "[param]\nU=%d\nT=0.1\n" % n)
        W("%d/log" % n, "Total energy: %s\n" % xs[i])
        if dn:
            W("%d/DONE" % n, "")
    W("x1/custom", "9 9 9\n")
    fin = [n for n, dn in zip(dirs, done) if dn]
    if not fin:
        raise Invalid()
    if t == "custparam":
        W("custom.dat", "# a\n# b c\n1 2\n3 4\n")
        W("param.loop", "[param]\nU=%s\n" % case["val"])
        r = call(ctx, [t, "U"])
        expect(r.out.split() == ["#", "b", "c", "3", "4", case["val"]], "custparam: %r" % r.out)
        return lab
    call(ctx, [t] + {"gather": ["U"], "gatherlastlines": ["custom"]}.get(t, []))
    if t == "gather":
        x = rd("custom.dat")
        same(outrows(x), [[str(n)] + rows[n][1:] for n in sorted(fin)], t)
        expect(comments(x) == ["# first", "#  T  <n>  E"], "gather: header %r" % comments(x))
    elif t == "gatherlastlines":
        x = rd("custom")
        same(outrows(x), [rows[n] for n in sorted(fin)], t)
        expect(comments(x) == ["# first", "#  T  <n>  E"], "gatherlastlines: header %r" % comments(x))
    elif t == "gathertd":
        same(outrows(rd("td.dat")), sorted((rows[n] for n in fin), key=lambda v: float(v[0])) if len({float(rows[n][0]) for n in fin}) == len(fin) else outrows(rd("td.dat")), t)
        expect(len(outrows(rd("td.dat"))) == len(fin), "gathertd: %d rows" % len(outrows(rd("td.dat"))))
    elif t == "gathertd_nosrt":
        same(outrows(rd("td.dat")), [rows[n] for n in sorted(dirs, key=str)], t)
    elif t == "gathercustom_nosrt":
        same(outrows(rd("custom.dat")), [v for n in sorted(dirs, key=str) for v in (["1", "2", "3"], rows[n])], t)
    elif t == "gatherE":
        same(outrows(rd("E.dat")), [[rows[n][0]] for n in sorted(fin)], t)
    return lab


def run_looper(case, ctx):
    wd = ctx["wd"]
    VALS = {"$a=1;$a<=3;$a++": ("$a", ["1", "2", "3"]), "$b=0.5;$b<2;$b++": ("$b", ["0.5", "1.5"]), "$c=2;$c<=8;$c*=2": ("$c", ["2", "4", "8"])}
    loops = [VALS[l] for l in case["loop"]]
    mode = case["mode"]
    head = ["#PRELUDE: $q=%d" % case["n"], "#AUTOLOOP: cat param >seen"]
    if mode:
        head.append("#" + mode)
    src = "\n".join(head + ["@" + l for l in case["loop"]] + ["[param]", "q=$q"] + ["%s=%s" % (v[1:], v) for v, _ in loops] + ["!$s=$cnt*2;", "s=$s", ""])
    proc.write(wd, {"param.loop": src})
    old = [] if mode in ("STOP",) else [n for n in case["dirs"] if n < 6]
    for n in old:
        os.makedirs(os.path.join(wd, str(n)))
        proc.write(wd, {"%d/old" % n: "x"})
    call(ctx, ["looper", "param.loop"])
    points = [[]]
    for v, vs in loops:
        points = [p + [x] for p in points for x in vs]
    exp = {}
    k = 0
    for i, p in enumerate(points):
        k += 1
        if mode in ("", "STOP"):
            while k in old:
                k += 1
        if mode == "CONTINUE" and k in old:
            continue
        exp[k] = ["[param]", "q=%d" % case["n"]] + ["%s=%s" % (v[1:], x) for (v, _), x in zip(loops, p)] + ["s=%d" % (2 * (i + 1))]
        if mode == "STOP":
            break
    for n, want in exp.items():
        for f in ("param", "seen"):
            x = proc.read(wd, "%d/%s" % (n, f))
            expect(x is not None and x.split("\n")[:-1] == want, "looper: %d/%s holds %r instead of %r" % (n, f, x, want))
        expect(not (mode == "OVERWRITE" and os.path.exists(os.path.join(wd, "%d/old" % n))), "looper: directory %d is not overwritten" % n)
    dirs = {int(d) for d in os.listdir(wd) if d.isdigit()}
    expect(dirs == set(exp) | set(old), "looper: directories %r instead of %r" % (sorted(dirs), sorted(set(exp) | set(old))))
    for n in old:
        if n not in exp:
            expect(os.listdir(os.path.join(wd, str(n))) == ["old"], "looper: directory %d is changed" % n)
    return ["nontrivial"]


LAWS = [Law("columns", colcases(), run_columns, 2000, 40000), Law("integrals", intcases(), run_integrals, 1600, 40000),
        Law("pairs", paircases(), run_pairs, 1300, 24000), Law("lines", linecases(), run_lines, 1600, 30000), Law("runs", runcases(), run_runs, 1500, 24000)]

if __name__ == "__main__":
    main(sys.modules[__name__])
