import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
import numpy as np
from hypothesis import strategies as st

from vlib import build as B
from vlib import proc
from vlib.gen import fl, fmtx, logfl
from vlib.proc import expect, expect_close, expect_rejected, must_ok
from vlib.pwl import Pwl, density
from vlib.runner import Invalid, Law, main

PROPERTY = "T02"
RULE = ("Densities (flat, linear, kinked, logarithmic, smooth; both branches; --flat), Lambda 1.5-5, band rescaling, fixed and adaptive meshes, "
        "hard gaps, loaded meshes. Non-trivial: density not constant.")
ASSUMPTIONS = ["Densities are bounded away from zero and end at the band edge; adaptive meshes extend to energies where the density is constant.",
               "Step sizes and error tolerance of the solver are set tightly; the comparison allows for the growth of errors as Lambda^x."]


def build(scratch, tier):
    return {"tools": B.build_tools(["adapt"], scratch, extra=["-O2"])}


@st.composite
def cases(draw):
    lam = draw(st.sampled_from([1.5, 2.0, 2.0, 2.5, 3.0, 5.0]))
    c = {"Lambda": lam, "D": draw(st.sampled_from([1.0, 1.0, 2.0, 0.4])), "sign": draw(st.sampled_from(["P", "N", "pos", "negative", ""])),
         "xmax": draw(fl(3, 11, 3)), "out": draw(st.sampled_from([0.25, 0.125, 0.5, 1.0])), "mode": draw(st.sampled_from(["fixed", "adapt", "adapt", "hardgap", "loadg", "flat"])),
         "other": draw(fl(0.2, 2)), "param": draw(st.sampled_from(["param", "param", "my.conf"])), "order": draw(st.booleans()),
         "zero": draw(st.one_of(st.none(), fl(0.0, 5.0, 3)))}
    xm = None
    if c["mode"] in ("adapt", "loadg"):
        # the adaptive mesh is fixed by its behaviour at xmax: the table has to reach the region where the density is constant
        xm = draw(logfl(0.02, 0.2))
        c["xmax"] = float("%.3f" % (2 + math.log(2.5 / xm) / math.log(lam) + draw(fl(0, 2, 3))))
    c["rho"] = draw(density(c["D"], lo=0.3, xmin=xm))
    if c["mode"] == "hardgap":
        c["boundary"] = draw(fl(0.01, 0.4, 4))
    if c["mode"] == "flat":
        c["D"] = 1.0
        v = draw(fl(0.05, 3))
        c["rho"] = [[1e-10, v], [1.0, v]]
    return c


def params(c):
    p = ["[param]", "Lambda=%r" % c["Lambda"], "bandrescale=%r" % c["D"], "xmax=%r" % c["xmax"], "outputstep=%r" % c["out"],
         "dx_fine=2e-05", "dx_fast=0.0003", "allowed_error=1e-12", "xfine=1.1"]
    if c["mode"] in ("adapt", "loadg"):
        p.append("adapt=true")
    if c["mode"] == "hardgap":
        p += ["hardgap=true", "boundary=%r" % c["boundary"]]
    return "\n".join(p) + "\n"


def run(case, ctx):
    c = case
    wd = ctx["wd"]
    proc.clean(wd)
    neg = c["sign"] in ("N", "negative")
    sg = -1 if neg else 1
    rows = [(sg * x, y) for x, y in c["rho"]] + [(-sg * c["D"], c["other"]), (-sg * 1e-3 * c["D"], 2 * c["other"])]
    if c.get("zero") is not None:
        rows.append((0.0, c["zero"]))  # belongs to neither branch
    if c["order"]:
        rows.sort()
    f = {c["param"]: params(c)}
    if c["mode"] != "flat":
        f["Delta.dat"] = "".join("%s %s\n" % (fmtx(a), fmtx(b)) for a, b in rows)
    proc.write(wd, f)
    cmd = [ctx["tools"]["adapt"]] + (["--flat", repr(c["rho"][0][1])] if c["mode"] == "flat" else []) + ([c["sign"]] if c["sign"] else [])
    if c["param"] != "param":
        cmd.append(c["param"])
    must_ok(proc.run(cmd, wd), "adapt")
    sfx = "NEG.dat" if neg else ".dat"
    lam, L, D = c["Lambda"], math.log(c["Lambda"]), c["D"]
    rho = Pwl([p[0] / D for p in c["rho"]], [p[1] * D for p in c["rho"]])
    R1 = rho.R(1.0)
    F = proc.table(proc.read(wd, "FSOL" + sfx) or "")
    expect(proc.read(wd, "FSOL" + (".dat" if neg else "NEG.dat")) is None, "wrong branch written")
    n = len(F)
    expect(n >= 2 and F[0] == [1.0, 1 / lam] or abs(F[0][1] * lam - 1) < 1e-14, "f(1) = %r" % (F[:1],))
    lab = {c["mode"], "N" if neg else "P"}
    adaptive = c["mode"] in ("adapt", "loadg")
    rmin, rmax = min(rho.y), max(rho.y)
    if adaptive:
        G = proc.table(proc.read(wd, "GSOL" + sfx) or "")
        expect(len(G) >= 2 and G[0][0] == 2.0 and abs(G[0][1] - 1) < 1e-14, "g(2) = %r" % G[:1])
        # mesh points: every interval of the adaptive mesh carries a share of the weight that falls by Lambda from one to the next
        # R(eps(x)) = R(1) - A (1 - Lambda^(2-x)), with A fixed by g(xmax) = A/rho(0)
        xl, gl_ = G[-1]
        A = (R1 - rho.R(gl_ * lam ** (2 - xl))) / (1 - lam ** (2 - xl))
        expect(abs(gl_ * rho(0) / A - 1) < 1.5e-4, "g(xmax) rho(0)/A = %.9g" % (gl_ * rho(0) / A))
        for i, (x, g) in enumerate(G):
            expect_close(x, 2 + i * c["out"], 1e-9, 0, "g mesh")
            e = g * lam ** (2 - x)
            expect_close(rho.R(e) / R1, 1 - A / R1 * (1 - lam ** (2 - x)), 0, 1e-8 * rmax / rmin, "weight below the mesh point x=%g" % x)
        # asymptotically every interval carries 1/Lambda of the weight of the one before: A = R(1), up to the part of the
        # density the table did not reach
        e = gl_ * lam ** (2 - xl)
        expect(abs(A / R1 - 1) <= 3 * (abs(rho.R(e) - e * rho(0)) + 2e-4 * e * rmax) / R1, "weight ratio A/R(1) = %.9g" % (A / R1))
        gp = Pwl(*zip(*G))
        eps = lambda x: 1.0 if x <= 2 else gp(x) * lam ** (2 - x)
    elif c["mode"] == "hardgap":
        b = c["boundary"]
        eps = lambda x: 1.0 if x <= 2 else (1 - b) * lam ** (2 - x) + b
    else:
        eps = lambda x: 1.0 if x <= 2 else lam ** (2 - x)
    # representative energies: averaging over the twist reproduces the density, R(E(x)) = int_x^{x+1} R(eps(t)) dt
    gx, gw = np.polynomial.legendre.leggauss(8)
    # nodes for accurate quadrature: output grid, mesh kinks
    h = 0.02

    brk = {1.0, 2.0, F[-1][0] + 1}
    if adaptive:
        brk |= {p[0] for p in G}
    if c["mode"] == "hardgap":
        brk |= {2 - math.log((x - b) / (1 - b)) / L for x in rho.x if b < x < 1}
    elif not adaptive:
        brk |= {2 - math.log(x) / L for x in rho.x if x < 1}
    hi = F[-1][0] + 1.0
    brk = sorted(v for v in brk if 1 <= v <= hi)
    xs = [1.0]
    for p, q in zip(brk, brk[1:]):
        m = max(1, int(math.ceil((q - p) / (0.1 if adaptive else 0.25))))
        xs += [p + (q - p) * k / m for k in range(1, m + 1)]
    cum = [0.0]
    for p, q in zip(xs, xs[1:]):
        cum.append(cum[-1] + (q - p) / 2 * sum(w * rho.R(eps((p + q) / 2 + (q - p) / 2 * t)) for t, w in zip(gx, gw)))
    import bisect

    def I(x):
        i = min(bisect.bisect_right(xs, x) - 1, len(xs) - 2)
        p = xs[i]
        return cum[i] + (x - p) / 2 * sum(w * rho.R(eps((p + x) / 2 + (x - p) / 2 * t)) for t, w in zip(gx, gw)) if x > p else cum[i]
    Eold = 2.0
    for i, (x, f) in enumerate(F):
        expect_close(x, 1 + i * c["out"], 1e-9, 0, "f mesh")
        E = f * lam ** (2 - x)
        expect(0 < E < Eold + 1e-12, "representative energies not decreasing at x=%g" % x)
        Eold = E
        want = I(x + 1) - I(x)
        tol = 2e-7 + (2e-6 if adaptive else 0)
        expect_close(rho.R(E) / R1, want / R1, 0, tol * rmax / rmin, "weight below the representative energy x=%g" % x)
    last = F[-1]
    if c["mode"] == "hardgap" and last[0] < c["xmax"]:
        expect(abs(last[1]) > 100 * (1 - 1e-9), "table ends at x=%g, f=%g" % tuple(last))
    else:
        expect(last[0] >= c["xmax"] - 1e-6, "table ends at x=%g before xmax=%g" % (last[0], c["xmax"]))
    if c["mode"] == "loadg":
        old = proc.read(wd, "GSOL" + sfx)
        os.unlink(os.path.join(wd, "FSOL" + sfx))
        proc.write(wd, {c["param"]: params(c) + "loadg=true\n"})
        must_ok(proc.run(cmd, wd), "adapt with loadg")
        expect(proc.read(wd, "GSOL" + sfx) == old, "mesh table rewritten although it was to be loaded")
        F2 = proc.table(proc.read(wd, "FSOL" + sfx) or "")
        expect(len(F2) == len(F), "rows %d %d" % (len(F2), len(F)))
        for p, q in zip(F, F2):
            expect_close(q[1], p[1], 1e-11 * lam ** p[0], 0, "f(%g) from the loaded mesh" % p[0])
    if len(set(rho.y)) > 1:
        lab.add("nontrivial")
    return lab


# ------------------------------------------------------------------------------------- the unit of the density does not matter
@st.composite
def scaled_cases(draw):
    c = draw(cases())
    c["mode"] = draw(st.sampled_from(["fixed", "adapt", "hardgap", "flat"]))
    if c["mode"] == "hardgap":
        c["boundary"] = draw(fl(0.01, 0.4, 4))
    if c["mode"] == "flat":
        c["D"] = 1.0
        v = draw(fl(0.05, 3))
        c["rho"] = [[1e-10, v], [1.0, v]]
    elif draw(st.booleans()):
        # far down the logarithmic mesh
        c["xmax"] = draw(fl(20, 40, 1))
    return {"c": c, "pow": draw(st.sampled_from([-30, 20, -1, 60, -60]))}


def scaled(case, ctx):
    c, s = case["c"], 2.0 ** case["pow"]
    wd = ctx["wd"]
    neg = c["sign"] in ("N", "negative")
    sg, sfx = (-1, "NEG.dat") if neg else (1, ".dat")
    res = []
    for u in (1.0, s):
        proc.clean(wd)
        f = {c["param"]: params(c) + "dx_fine=0.0001\ndx_fast=0.001\nallowed_error=1e-6\nxfine=1.5\n"}
        cmd = [ctx["tools"]["adapt"]] + (["--flat", repr(c["rho"][0][1] * u)] if c["mode"] == "flat" else []) + ([c["sign"]] if c["sign"] else [])
        if c["mode"] != "flat":
            f["Delta.dat"] = "".join("%r %r\n" % (sg * x, y * u) for x, y in c["rho"]) + "%r %r\n" % (-sg * c["D"], c["other"])
        proc.write(wd, f)
        if c["param"] != "param":
            cmd.append(c["param"])
        r = proc.run(cmd, wd)
        res.append((r.rc, proc.table(proc.read(wd, "FSOL" + sfx) or ""), proc.table(proc.read(wd, "GSOL" + sfx) or "")))
    (r1, F1, G1), (r2, F2, G2) = res
    expect((r1 == 0) == (r2 == 0), "exit status %d, with the density multiplied by 2^%d %d" % (r1, case["pow"], r2))
    if r1:
        raise Invalid()
    expect(len(F1) == len(F2) and len(G1) == len(G2) and len(F1) > 1, "rows of f and g: %d %d, with the density multiplied by 2^%d: %d %d" % (len(F1), len(G1), case["pow"], len(F2), len(G2)))
    for n, p, q in [("f", a, b) for a, b in zip(F1, F2)] + [("g", a, b) for a, b in zip(G1, G2)]:
        expect_close(q[0], p[0], 1e-12, 0, n + " mesh")
        expect_close(q[1], p[1], 1e-9, 0, "%s(%g) with the density multiplied by 2^%d" % (n, p[0], case["pow"]))
    return {c["mode"], "nontrivial"}


@st.composite
def bad_cases(draw):
    c = draw(cases())
    c["mode"] = draw(st.sampled_from(["fixed", "adapt"]))
    return {"c": c, "kind": draw(st.sampled_from(["Lambda", "xmax", "nodos", "noparam", "negative", "nobranch", "step", "maxabs", "flat0", "flatx", "twosigns", "opt", "extra"])),
            "v": draw(fl(0.1, 1.0))}


def bad(case, ctx):
    c, k, v = case["c"], case["kind"], case["v"]
    wd = ctx["wd"]
    proc.clean(wd)
    neg = c["sign"] in ("N", "negative")
    sg = -1 if neg else 1
    f = {c["param"]: params(c), "Delta.dat": "".join("%r %r\n%r 1.0\n" % (sg * x, y, -sg * x) for x, y in c["rho"])}
    cmd = [ctx["tools"]["adapt"]] + ([c["sign"]] if c["sign"] else []) + ([c["param"]] if c["param"] != "param" else [])
    if k == "Lambda":
        f[c["param"]] += "Lambda=%r\n" % v
    elif k == "xmax":
        f[c["param"]] += "xmax=%r\n" % v
    elif k == "step":
        f[c["param"]] += "outputstep=%r\n" % (1 + v)
    elif k == "maxabs":
        f[c["param"]] += "max_abs=%r\n" % (-v)
    elif k == "nodos":
        del f["Delta.dat"]
    elif k == "noparam":
        del f[c["param"]]
    elif k == "negative":
        f["Delta.dat"] += "%r -0.1\n" % (sg * v * c["D"])
    elif k == "nobranch":
        f["Delta.dat"] = "".join("%r %r\n" % (-sg * x, y) for x, y in c["rho"])
    elif k == "flat0":
        cmd += ["--flat", repr(-v)]
    elif k == "flatx":
        cmd += ["--flat=%rx" % v]
    elif k == "twosigns":
        cmd += ["P", "N"]
    elif k == "opt":
        cmd += ["-q"]
    elif k == "extra":
        cmd += ["param", "again"]
    proc.write(wd, f)
    expect_rejected(proc.run(cmd, wd), "adapt, " + k)
    return {"nontrivial", k}


LAWS = [
    Law("reference", cases(), run, 900),
    Law("scaled", scaled_cases(), scaled, 300),
    Law("rejects", bad_cases(), bad, 300),
]

if __name__ == "__main__":
    main(sys.modules[__name__])
