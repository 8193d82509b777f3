import os
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from vlib import build as B
from vlib import proc
from vlib.gen import fl, logfl
from vlib.proc import expect, must_ok, table
from vlib.runner import Invalid, Law, main

PROPERTY = "T10"
RULE = ("1-3 binary delta-peak spectra with 1-30 peaks each on one or both sides of zero (shared, close and isolated frequencies, now and then "
        "negative weights), random mesh, b0, q, smallest broadening, number of iterations, dynamic mesh and positivity flags. Non-trivial: at "
        "least two iterations and peaks of different broadening.")
ASSUMPTIONS = ["meshes that differ between two references perturbed by 1e-13 (dynamic refinement decided by rounding) are outside the domain"]


def build(scratch, tier):
    return {"tools": B.build_tools(["bw"], scratch)}


@st.composite
def cases(draw):
    nz = draw(st.sampled_from([1, 1, 2, 3]))
    signs = draw(st.sampled_from([(1, -1), (1, -1), (1, -1), (1,), (-1,)]))
    pool = draw(st.lists(st.tuples(logfl(2e-3, 1.5, 5), st.sampled_from(signs)), min_size=1, max_size=12))
    neg = draw(st.integers(0, 5)) == 0
    zs = []
    for _ in range(nz):
        p = [(w * s, draw(fl(-0.3 if neg else 0.0, 1.0))) for w, s in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=8))]
        p += [(draw(logfl(2e-3, 1.5, 5)) * draw(st.sampled_from(signs)), draw(fl(-0.3 if neg else 0.01, 1.0))) for _ in range(draw(st.integers(0, 12)))]
        zs.append([[float(a), float(b)] for a, b in p])
    ratio = draw(st.sampled_from([1.02, 1.05, 1.1]))
    b0 = draw(st.sampled_from([0.15, 0.3, 0.6, 1.0]))
    return {"z": zs, "m": draw(st.sampled_from([1e-3, 1e-4, 1e-2])), "M": draw(st.sampled_from([2.0, 1.0, 5.0])), "r": ratio, "b0": b0,
            "n": draw(st.sampled_from([1, 2, 3, 5])), "t": draw(st.sampled_from([None, None, 0.05, 0.0])), "p": draw(st.booleans()),
            "q": draw(st.sampled_from([None, None, 0.5, 2.0])), "x": draw(st.sampled_from([None, None, 0.1])),
            "d": draw(st.sampled_from([None, None, None, 0.1, 1.0])), "o": draw(st.booleans()), "s": draw(st.sampled_from(["", "s", "S", "sS"]))}


def deriv(f, w):
    with np.errstate(all="ignore"):
        d = np.log(f[1:] / f[:-1]) / np.log(np.abs(w[1:] / w[:-1]))
    return np.concatenate([[0.0], np.where(np.isfinite(d), d, 0.0)])


def refine(w, a, tol):
    """the mesh of the next iteration: the outermost intervals are always split, others where linear extrapolation from outside fails"""
    new = list(w)

    def side(idx, sign):
        for k in range(1, len(idx)):
            i, j = idx[k], idx[k - 1]
            if k >= 2:
                h = idx[k - 2]
                pred = a[j] + (a[h] - a[j]) / (w[h] - w[j]) * (w[i] - w[j])
                with np.errstate(all="ignore"):
                    if not abs((a[i] - pred) / a[i]) > tol:
                        continue
            p = sign * np.sqrt(w[i] * w[j])
            if min(w[i], w[j]) < p < max(w[i], w[j]):
                new.append(p)
    n = len(w)
    side([i for i in range(n) if w[i] < 0], -1)
    side([i for i in reversed(range(n)) if w[i] > 0], 1)
    return np.array(sorted(new))


def reference(case, eps=0.0, seed=0):
    rng = np.random.default_rng(seed)
    spec = {}
    for z in case["z"]:
        for f, v in z:
            spec[f] = spec.get(f, 0.0) + v
    om = np.array(sorted(spec))
    wt = np.array([spec[f] / len(case["z"]) for f in om])
    b0, q = case["b0"], 1.0 if case["q"] is None else case["q"]
    bmin = case["x"] if case["x"] is not None else (0.0 if case["d"] else case["r"] - 1.0)
    g = []
    z = case["m"]
    while z < case["M"]:
        g.append(z)
        z *= case["r"]
    g.append(z * case["r"])
    mesh = np.array(sorted(g + [-x for x in g]))
    b = np.full(len(om), b0)
    for _ in range(case["n"]):
        same = (mesh[:, None] < 0) == (om[None, :] < 0)
        with np.errstate(all="ignore"):
            x = np.log(mesh[:, None] / om[None, :])
            k = np.where(same, np.exp(-(x / b - b / 4) ** 2) / (b * np.abs(mesh[:, None]) * np.sqrt(np.pi)), 0.0)
        a = k @ wt
        if case["p"]:
            a = np.where(a < 0, 1e-16, a)
        yield mesh, a, om, b
        inta = np.concatenate([[0.0], np.cumsum((a[1:] + a[:-1]) * np.diff(mesh) / 2)])
        inta = inta + eps * np.abs(inta).max() * rng.standard_normal(len(inta))
        i = int(np.searchsorted(mesh, 0.0))
        o = (inta[i - 1] + inta[i]) / 2
        da, db, dc = (deriv(v, mesh) for v in (inta, inta - o, inta[-1] - inta))
        f = lambda d1, d2: b0 * q * (1 / (q + np.abs(d1)) + 1 / (q + np.abs(d2))) / 2
        bp, bn = f(db, dc), f(da, db)
        nb = np.where(om < 0, np.interp(om, mesh, bn), np.interp(om, mesh, bp))
        b = np.maximum(nb, bmin)
        if case["d"]:
            mesh = refine(mesh, a, case["d"])
    yield mesh, None, om, b


def run(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    nz = len(case["z"])
    one = case["o"] and nz == 1
    for i, z in enumerate(case["z"], 1):
        d = wd if one else os.path.join(wd, str(i))
        os.makedirs(d, exist_ok=True)
        proc.write(d, {"s.bin": b"".join(struct.pack("dd", f, v) for f, v in z)})
    args = ["-m", repr(case["m"]), "-M", repr(case["M"]), "-r", repr(case["r"]), "-n", str(case["n"])]
    for k in ("t", "q", "x", "d"):
        if case[k] is not None:
            args += ["-" + k, repr(case[k])]
    args += ["-" + c for c in (case["s"] + ("o" if case["o"] else "") + ("p" if case["p"] else ""))]
    must_ok(proc.run([ctx["tools"]["bw"]] + args + ["s.bin", repr(case["b0"]), str(nz)], wd), "bw")
    trim = case["t"] if case["t"] is not None else case["m"] * 10
    its = list(reference(case))
    pert = list(reference(case, 1e-13, 1)), list(reference(case, 1e-13, 2))
    if any(len(p[k][0]) != len(its[k][0]) for p in pert for k in range(len(its) - 1)):
        raise Invalid
    tot = sum(v for z in case["z"] for f, v in z) / nz
    for k, (mesh, a, om, b) in enumerate(its):
        last = k == case["n"] - 1

        def check(name, xs, ys, alts, i, what):
            t = table(open(os.path.join(wd, "%s%s.dat" % (name, i or ""))).read())
            keep = ~((trim != 0) & (np.abs(xs) < trim)) & np.isfinite(ys)
            edge = np.abs(np.abs(xs) - trim) < 1e-5 * trim
            if edge.any():
                keep_n = keep.sum()
                if len(t) != keep_n:
                    raise Invalid
            expect(len(t) == keep.sum(), "%s: %s%s.dat has %d rows instead of %d" % (what, name, i or "", len(t), keep.sum()))
            if not len(t):
                return
            t = np.array(t)
            tol = 2e-5 * np.abs(ys) + 300 * sum(np.abs(y - ys) for y in alts) + 1e-13
            expect(np.all(np.abs(t[:, 0] - xs[keep]) <= 1e-5 * np.abs(xs[keep])), "%s: %s%s.dat frequencies" % (what, name, i or ""))
            bad = ~(np.abs(t[:, 1] - ys[keep]) <= tol[keep])
            if bad.any():
                j = int(np.argmax(bad))
                expect(False, "%s: %s%s.dat at %g is %r instead of %r" % (what, name, i or "", xs[keep][j], t[j, 1], ys[keep][j]))
        more = "s" in case["s"]
        if a is not None and (more or last):
            check("a", mesh, a, [p[k][1] for p in pert], k + 1, "iteration %d" % (k + 1))
        if more:
            check("b", om, b, [p[k][3] for p in pert], k, "after iteration %d" % k)
    # the broadened spectrum carries the weight of the peaks when the mesh covers them
    mesh, a, om, b = its[case["n"] - 1]
    spread = np.exp(6 * b)
    inside = np.all((np.abs(om) / spread > case["m"]) & (np.abs(om) * spread < case["M"])) if len(om) else False
    fine = b.min() > 3 * (case["r"] - 1) if len(b) else False
    pos = all(v >= 0 for z in case["z"] for f, v in z)
    lab = []
    if inside and fine and pos and trim == 0.0:
        t = np.array(table(open(os.path.join(wd, "a%d.dat" % case["n"])).read()))
        got = np.trapezoid(t[:, 1], t[:, 0])
        expect(abs(got - tot) <= 2e-2 * tot, "the broadened spectrum has weight %r instead of %r" % (got, tot))
        lab.append("weight")
    if case["n"] > 1 and np.ptp(b) > 0.01 * case["b0"]:
        lab.append("nontrivial")
    return lab + (["dynamic"] if case["d"] else []) + (["z-averaged"] if nz > 1 else []) + (["sign"] if not pos else [])


LAWS = [Law("adaptive", cases(), run, 1500, 20000)]
if __name__ == "__main__":
    main(sys.modules[__name__])
