import cmath
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
import math

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

from vlib import build as B
from vlib import proc
from vlib.gen import fl, fmtx, logfl
from vlib.proc import expect, expect_close, expect_rejected, must_ok
from vlib.runner import Law, main

PROPERTY = "T03"
RULE = ("Semicircular densities of any bandwidth and smooth tabulated ones (symmetric or not, sorted or not); z inside, outside and exactly at "
        "the band edge with |Im z| from 1e-8 to 3 and both signs; all three calling modes, shifts and output switches. Non-trivial: "
        "|G(z)| > 1e-3 / bandwidth and Re z != 0.")
ASSUMPTIONS = ["Tabulated densities are interpolated by a natural cubic spline and vanish outside the table.",
               "Tables resolve their structure (the adaptive quadrature samples, it does not know the knots); Im z = 0 is outside the domain."]


def build(scratch, tier):
    lib = os.path.join(scratch, "hilblib")
    B._run(["g++", "-std=gnu++20", "-w", "-O1", "-DNDEBUG", "-I", B.REPO + "/tools/hilb"] + [os.path.join(B.VERIF, "harness", "hilblib.cc"), "-o", lib, "-lgsl", "-lgslcblas"], "hilblib")
    return {"tools": B.build_tools(["hilb"], scratch), "lib": lib}


_x40, _w40 = np.polynomial.legendre.leggauss(40)


def seg_int(co, h, u):
    """integral over t in [0,h] of p(t)/(u-t), p = co[0]+co[1]t+..., u complex, not on the segment"""
    dist = max(0.0, -u.real, u.real - h) + abs(u.imag)
    if dist >= 0.3 * h:
        t = h / 2 * (1 + _x40)
        p = co[0] + t * (co[1] + t * (co[2] + t * co[3]))
        return h / 2 * np.dot(_w40, p / (u - t))
    # expand around u
    a0 = co[0] + u * (co[1] + u * (co[2] + u * co[3]))
    a1 = co[1] + u * (2 * co[2] + 3 * u * co[3])
    a2 = co[2] + 3 * u * co[3]
    a3 = co[3]
    l, r = -u, h - u
    lg = cmath.log(r) - cmath.log(l) if (l.imag != 0) else math.log(abs(r) / abs(l))
    return -(a0 * lg + a1 * (r - l) + a2 / 2 * (r * r - l * l) + a3 / 3 * (r ** 3 - l ** 3))


def table_G(sp, z):
    tot = 0j
    c, x = sp.c, sp.x
    for i in range(len(x) - 1):
        tot += seg_int((c[3][i], c[2][i], c[1][i], c[0][i]), x[i + 1] - x[i], z - x[i])
    return complex(tot)


def bethe_G(B_, z):
    return 2 / B_ ** 2 * (z - cmath.sqrt(z - B_) * cmath.sqrt(z + B_)) if abs(z) < 1e3 * B_ else 1 / z


@st.composite
def dos(draw):
    if draw(st.sampled_from([True, False, False])):
        b = draw(logfl(0.1, 10))
        return {"kind": "bethe", "B": b, "opt": draw(st.sampled_from(["s", "B"]))}
    n = draw(st.integers(8, 40))
    hi = draw(logfl(0.2, 5))
    lo = draw(st.sampled_from([-1.0, -1.0, -0.5, -2.0])) * hi
    d = draw(st.lists(fl(0.3, 1.0), min_size=n - 1, max_size=n - 1))
    x = [lo]
    for q in d:
        x.append(x[-1] + q * (hi - lo) / sum(d))
    x[-1] = hi
    x = [float("%.12g" % v) for v in x]
    y = [0.0] * n
    L = hi - lo
    for _ in range(draw(st.integers(1, 3))):
        c, w, a = draw(fl(0.1, 0.9)), draw(fl(0.2, 0.6)), draw(fl(0.1, 1))
        y = [v + a * math.exp(-(((t - lo) / L - c) / w) ** 2) for t, v in zip(x, y)]
    if draw(st.booleans()):
        y = [v * ((t - lo) / L) * (hi - t) / L * 4 for t, v in zip(x, y)]
    idx = draw(st.one_of(st.none(), st.permutations(list(range(n)))))
    return {"kind": "table", "x": x, "y": [float("%.12g" % v) for v in y], "perm": idx}


@st.composite
def zs(draw, d, n):
    b = d["B"] if d["kind"] == "bethe" else max(abs(d["x"][0]), abs(d["x"][-1]))
    out = []
    for _ in range(n):
        x = draw(st.one_of(fl(-1, 1), fl(-2.5, 2.5), st.sampled_from([0.0, 1.0, -1.0, 0.5]))) * b
        y = draw(st.one_of(logfl(1e-8, 1e-3), logfl(1e-4, 3.0)))
        out.append([float("%.12g" % x), y * draw(st.sampled_from([1, 1, -1]))])
    return out


@st.composite
def cases(draw):
    d = draw(dos())
    mode = draw(st.sampled_from(["one", "stream", "files"]))
    c = {"dos": d, "mode": mode, "G": draw(st.booleans()), "z": draw(zs(d, 1 if mode == "one" else draw(st.integers(1, 6)))),
         "sx": draw(st.sampled_from([0.0, 0.0, 0.25, -0.4])), "sy": draw(st.sampled_from([0.0, 0.0, 0.05])),
         "o": draw(st.booleans()) if mode != "files" else False}
    if mode == "files":
        c["om"] = [float("%.12g" % v) for v in draw(st.lists(fl(-2, 2), min_size=len(c["z"]), max_size=len(c["z"])))]
        c["clip"] = draw(st.booleans())
    return c


def at_edge(z, b):
    return abs(abs(z.real) - b) <= 4e-16 * b and abs(z.imag) < 1e-3


@st.composite
def edge_cases(draw):
    """exactly at +-B: |Im z| < 1e-3 is the listed finding, larger |Im z| has to be right"""
    d = draw(dos())
    b = d["B"] if d["kind"] == "bethe" else max(abs(d["x"][0]), abs(d["x"][-1]))
    d = dict(d, opt="B")
    y = draw(st.one_of(logfl(1e-8, 1e-3), logfl(1.001e-3, 3.0))) * draw(st.sampled_from([1, -1]))
    return {"dos": d, "mode": "one", "G": draw(st.booleans()), "z": [[b * draw(st.sampled_from([1, -1])), y]], "sx": 0.0, "sy": 0.0, "o": False, "edge": True}


def edge_known(case, msg):
    return "T03-edge" if case.get("edge") and abs(case["z"][0][1]) < 1e-3 else None


def run(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    d = case["dos"]
    opt = ["-G"] if case["G"] else []
    if d["kind"] == "bethe":
        b = d["B"]
        opt += ["-s", repr(1 / b)] if d["opt"] == "s" else ["-B", repr(b)]
        G = lambda z: bethe_G(b, z)
    else:
        idx = d["perm"] or range(len(d["x"]))
        proc.write(wd, {"dos.dat": "".join("%s %s\n" % (fmtx(d["x"][i]), fmtx(d["y"][i])) for i in idx)})
        opt += ["-d", "dos.dat"]
        sp = CubicSpline(d["x"], d["y"], bc_type="natural")
        b = max(abs(d["x"][0]), abs(d["x"][-1]))
        G = lambda z: table_G(sp, z)
    for k, o in (("sx", "-x"), ("sy", "-y")):
        if case[k]:
            opt += [o, repr(case[k])]
    if case["o"]:
        opt += ["-o", "res.dat"]
    sh = complex(case["sx"], case["sy"])
    res = []  # (z, re or None, im)
    exe = ctx["tools"]["hilb"]
    if case["mode"] == "one":
        z = complex(*case["z"][0])
        r = must_ok(proc.run([exe] + opt + ["--", repr(z.real), repr(z.imag)], wd), "hilb")
        txt = proc.read(wd, "res.dat") if case["o"] else r.out
        last = [l for l in txt.splitlines() if l.strip()][-1].strip()
        if case["G"]:
            v = [float(q) for q in last.strip("()").split(",")]
            res.append((z + sh, v[0], v[1]))
        else:
            res.append((z + sh, None, float(last)))
    elif case["mode"] == "stream":
        proc.write(wd, {"z.dat": "".join("%d %s %s\n" % (i, fmtx(p[0]), fmtx(p[1])) for i, p in enumerate(case["z"]))})
        r = must_ok(proc.run([exe] + opt + ["z.dat"], wd), "hilb")
        rows = proc.table(proc.read(wd, "res.dat") if case["o"] else r.out)
        expect(len(rows) == len(case["z"]), "%d result rows for %d points" % (len(rows), len(case["z"])))
        for i, (row, p) in enumerate(zip(rows, case["z"])):
            expect(len(row) == (3 if case["G"] else 2) and row[0] == i, "row %r" % row)
            res.append((complex(*p) + sh, row[1] if case["G"] else None, row[-1]))
    else:
        om = case["om"]
        # z = omega - Sigma, Im Sigma <= -1e-8 enforced by the tool
        sre = [float("%.12g" % (w - p[0])) for w, p in zip(om, case["z"])]
        sim = [(abs(p[1]) if case["clip"] and i == 0 else -abs(p[1])) for i, p in enumerate(case["z"])]
        proc.write(wd, {"re": "".join("%s %s\n" % (fmtx(a), fmtx(v)) for a, v in zip(om, sre)),
                        "im": "".join("%s %s\n" % (fmtx(a), fmtx(v)) for a, v in zip(om, sim))})
        must_ok(proc.run([exe] + opt + ["re", "im", "reaw", "imaw"], wd), "hilb")
        R, I = proc.table(proc.read(wd, "reaw")), proc.table(proc.read(wd, "imaw"))
        expect(len(R) == len(om) and len(I) == len(om), "row counts %d %d for %d" % (len(R), len(I), len(om)))
        f = 1 if case["G"] else -math.pi
        for i in range(len(om)):
            expect_close(R[i][0], om[i], 1e-12, 0, "frequency")
            expect_close(I[i][0], om[i], 1e-12, 0, "frequency")
            z = complex(om[i] - sre[i], -min(sim[i], -1e-8))
            res.append((z + sh, R[i][1] * f, I[i][1] * f))
    lab = {case["mode"], d["kind"]}
    for z, re, im in res:
        if at_edge(z, b) and not case.get("edge"):
            continue  # listed finding, law "edge"
        g = G(z)
        y = abs(z.imag)
        # at an edge where the density does not vanish the result depends on log|z-edge|: rounding of the argument enters
        tol = 2e-5 / b + 2e-5 * abs(g)
        if d["kind"] == "table":
            tol += table_tol(d["x"], d["y"], b, z)
        else:
            tol += 2 / b ** 2 * math.sqrt(1e-14 * b * b)
        expect_close(im, g.imag, 0, tol, "Im G(%r)" % z)
        if re is not None:
            expect_close(re, g.real, 0, tol, "Re G(%r)" % z)
        if abs(g) * b > 1e-3 and z.real != 0:
            lab.add("nontrivial")
        if abs(abs(z.real) - b) < 1e-12:
            lab.add("edge")
        lab.add("small-im" if y < 1e-3 else "large-im")
    return lab


def table_tol(x, v, b, z):
    y = abs(z.imag)
    tol = 3e-5 * max(map(abs, v)) * (1 + abs(math.log(y / b)))
    for e, v in ((x[0], v[0]), (x[-1], v[-1])):
        tol += abs(v) * 1e-13 * max(1, abs(z)) / (abs(z - e) + 1e-300)
        if abs(e) < b * (1 - 1e-9):     # a jump inside the interval of integration: the sampling quadrature locates it only roughly
            tol += 5e-3 * abs(v) * (1 + abs(math.log(y / b)))
    return tol


@st.composite
def complex_cases(draw):
    """a complex spectral function (off-diagonal Green's functions), through the functions of hilb.hpp"""
    d = draw(dos().filter(lambda d: d["kind"] == "table"))
    n = len(d["x"])
    L, lo = d["x"][-1] - d["x"][0], d["x"][0]
    im = [0.0] * n
    for _ in range(draw(st.integers(1, 3))):
        c, w, a = draw(fl(0.1, 0.9)), draw(fl(0.2, 0.6)), draw(fl(-1, 1))
        im = [v + a * math.exp(-(((t - lo) / L - c) / w) ** 2) for t, v in zip(d["x"], im)]
    if draw(st.booleans()):
        im = [v * ((t - lo) / L) * (d["x"][-1] - t) / L * 4 for t, v in zip(d["x"], im)]
    return {"x": d["x"], "y": d["y"], "im": [float("%.12g" % v) for v in im], "z": draw(zs(d, draw(st.integers(1, 6)))),
            "lim": draw(st.sampled_from([-1.0, -1.0, 1e-3, 1e-2, 0.3]))}


def run_complex(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    x, y, im = case["x"], case["y"], case["im"]
    b = max(abs(x[0]), abs(x[-1]))
    text = "%r %d\n" % (case["lim"], len(x)) + "".join("%s %s %s\n" % tuple(map(fmtx, q)) for q in zip(x, y, im))
    text += "%d\n" % len(case["z"]) + "".join("%s %s\n" % tuple(map(fmtx, q)) for q in case["z"])
    rows = proc.table(must_ok(proc.run([ctx["lib"]], wd, stdin=text.encode()), "hilbert_transform").out)
    expect(len(rows) == len(case["z"]), "%d results" % len(rows))
    sr, si = (CubicSpline(x, v, bc_type="natural") for v in (y, im))
    lab = {"complex"}
    for (re1, im1), z in zip(rows, case["z"]):
        z = complex(*z)
        if abs(abs(z.real) - b) <= 4e-16 * b and abs(z.imag) < max(case["lim"], 1e-3):
            continue  # listed finding, law "edge"
        g = table_G(sr, z) + 1j * table_G(si, z)
        tol = 2e-5 / b + 2e-5 * abs(g) + table_tol(x, y, b, z) + table_tol(x, im, b, z)
        expect_close(re1, g.real, 0, tol, "real part of the transform at %r" % z)
        expect_close(im1, g.imag, 0, tol, "imaginary part of the transform at %r" % z)
        if abs(g) * b > 1e-3 and max(map(abs, im)) > 0.05:
            lab.add("nontrivial")
    return lab


@st.composite
def bad_cases(draw):
    return {"kind": draw(st.sampled_from(["nodos", "emptydos", "mismatch", "noinput", "badopt"])), "d": draw(fl(1e-5, 1)), "w": draw(fl(-1, 1))}


def bad(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    k = case["kind"]
    exe = ctx["tools"]["hilb"]
    if k == "nodos":
        r = proc.run([exe, "-d", "none.dat", "0.1", "0.1"], wd)
    elif k == "emptydos":
        proc.write(wd, {"dos.dat": "\n"})
        r = proc.run([exe, "-d", "dos.dat", "0.1", "0.1"], wd)
    elif k == "mismatch":
        proc.write(wd, {"re": "%r 0\n" % case["w"], "im": "%r -0.1\n" % (case["w"] + case["d"])})
        r = proc.run([exe, "re", "im", "a", "b"], wd)
        expect(not (proc.read(wd, "a") or "").strip(), "result written for mismatched grids")
    elif k == "noinput":
        r = proc.run([exe, "none.dat"], wd)
    else:
        r = proc.run([exe, "-q", "0.1", "0.1"], wd)
    expect_rejected(r, "hilb, " + k)
    return {"nontrivial", k}


LAWS = [
    Law("reference", cases(), run, 5000),
    Law("edge", edge_cases(), run, 300, known=edge_known),
    Law("complex", complex_cases(), run_complex, 600),
    Law("rejects", bad_cases(), bad, 300),
]

if __name__ == "__main__":
    main(sys.modules[__name__])
