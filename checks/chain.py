import math
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401  (sets the number of threads)
from hypothesis import strategies as st

from vlib import build as B
from vlib import proc
from vlib.gen import fl, fmtx, logfl
from vlib.proc import expect, expect_close, expect_rejected, must_ok
from vlib.pwl import Pwl, density
from vlib.runner import Law, main
from vlib.star import lanczos

PROPERTY = "T01"
RULE = ("Hybridisation densities (flat, linear, kinked, logarithmic, smooth; symmetric or not, positive and negative branch independent), "
        "Lambda 1.3-8, z in (0,1], chains of 1-26 sites from stars of up to 90 levels per branch, fixed and adaptive meshes, band rescaling, "
        "coefficient rescaling, one-step and two-step (save/load) operation. Non-trivial: asymmetric density or non-flat band, and Nmax >= 2.")
ASSUMPTIONS = ["Working precision of the tool is set to at least 1000 bits.", "The star has more levels than the chain has sites."]


def build(scratch, tier):
    t = B.build_tools(["nrgchain"], scratch, extra=["-O1"])
    lib = os.path.join(scratch, "chainlib")
    B._run(B.tool_cmd("nrgchain", lib, extra=["-O1", "-DNRGCHAIN_NO_MAIN", os.path.join(B.VERIF, "harness", "chainlib.cc")]), "chainlib")
    return {"tools": t, "lib": lib}


@st.composite
def fsol(draw, lam, xmax):
    """a decreasing representative-energy function in tabulated form: f(x), f(1)=1/Lambda"""
    n = draw(st.integers(2, 12))
    fac = (1 - 1 / lam) / math.log(lam)
    xs = sorted({1.0, xmax} | set(float("%.6g" % (1 + (xmax - 1) * v)) for v in draw(st.lists(fl(0.02, 0.98), min_size=n, max_size=n))))
    ys = [1 / lam] + [float("%.12g" % (fac * (1 + v))) for v in draw(st.lists(fl(-0.05, 0.05), min_size=len(xs) - 1, max_size=len(xs) - 1))]
    return [[a, b] for a, b in zip(xs, ys)]


@st.composite
def cases(draw, maxn=26):
    lam = draw(st.sampled_from([1.3, 1.7, 2.0, 2.0, 2.5, 3.0, 4.0, 8.0]))
    nmax = draw(st.integers(0, maxn))
    mm = draw(st.one_of(st.none(), st.integers(max(1, (nmax + 1) // 2 + 2), max(2 * nmax, nmax + 5)))) if nmax >= 6 else draw(st.integers(nmax + 4, 40))
    band = draw(st.sampled_from(["flat", "adapt", "adapt", "adapt"]))
    c = {"Lambda": lam, "z": draw(st.one_of(st.just(1.0), fl(0.02, 1.0, 4))), "Nmax": nmax, "mMAX": mm, "band": band,
         "D": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 3.7])), "rescalexi": draw(st.booleans()), "prec": draw(st.sampled_from([1000, 2000, 3000])),
         "twostep": draw(st.booleans()), "via": draw(st.sampled_from(["arg", "arg", "param"])), "adapt": False}
    m = mm if mm is not None else 2 * nmax
    if band == "adapt":
        c["pos"] = draw(density(c["D"]))
        c["neg"] = c["pos"] if draw(st.sampled_from([True, False, False])) else draw(density(c["D"]))
        top = m + 4.0
        c["fpos"] = draw(fsol(lam, top))
        c["fneg"] = c["fpos"] if c["neg"] is c["pos"] else draw(fsol(lam, draw(st.sampled_from([top, top / 2 + 1]))))
        c["adapt"] = draw(st.booleans())
        if c["adapt"]:
            for k in ("gpos", "gneg"):
                if k == "gneg" and c["neg"] is c["pos"]:
                    c[k] = c["gpos"]
                    continue
                n = draw(st.integers(1, 6))
                c[k] = [[2.0, 1.0]] + [[2.0 + (top - 2) * (i + 1) / n, draw(fl(0.97, 1.03))] for i in range(n)]
        c["order"] = draw(st.booleans())
        c["zero"] = draw(st.one_of(st.none(), fl(0.0, 5.0, 3)))
        c["dos"] = draw(st.sampled_from(["Delta.dat", "Delta.dat", "gamma.txt"]))
    return c


def paramfile(c):
    p = ["[extra]", "Lambda=77", "", "[param]", "# a comment", "Lambda=%r" % c["Lambda"], "z = %r" % c["z"], "Nmax=%d" % c["Nmax"],
         "preccpp=%d" % c["prec"], "bandrescale=%r" % c["D"], "adapt=%s" % ("true" if c["adapt"] else "false")]
    if c["mMAX"] is not None:
        p.append("mMAX=%d" % c["mMAX"])
    if c["rescalexi"]:
        p.append("rescalexi=true")
    if c["band"] == "flat":
        p.append("band=flat")
    elif c["dos"] != "Delta.dat":
        p.append("dos=" + c["dos"])
    return "\n".join(p + ["", "[other]", "z=0.33"]) + "\n"


def switched(c, *lines):
    return paramfile(c).replace("# a comment", "\n".join(lines), 1)


def files(c):
    f = {"param": paramfile(c)}
    if c["band"] == "adapt":
        rows = [(x, y) for x, y in c["pos"]] + [(-x, y) for x, y in c["neg"]]
        if c.get("zero") is not None:
            rows.append((0.0, c["zero"]))  # belongs to neither branch
        if not c["order"]:
            rows.sort()
        f[c["dos"]] = "# omega gamma\n" + "".join("%s %s\n" % (fmtx(x), fmtx(y)) for x, y in rows)
        for k, n in (("fpos", "FSOL.dat"), ("fneg", "FSOLNEG.dat"), ("gpos", "GSOL.dat"), ("gneg", "GSOLNEG.dat")):
            if k in c:
                f[n] = "".join("%s %s\n" % (fmtx(x), fmtx(y)) for x, y in c[k])
    return f


def star(c):
    lam, z, D = c["Lambda"], c["z"], c["D"]
    m = c["mMAX"] if c["mMAX"] is not None else 2 * c["Nmax"]
    out = {}
    for s in ("pos", "neg"):
        if c["band"] == "flat":
            rho = Pwl([1e-300, 1.0], [0.5, 0.5])

            def E(x):
                j = math.floor(x)
                q = x - j
                if x < 2:
                    return (1 - lam ** -q) / math.log(lam) + 1 - q
                return (1 - 1 / lam) / math.log(lam) * lam ** (2 - x)
            g = None
        else:
            rho = Pwl([p[0] / D for p in c[s]], [p[1] * D for p in c[s]])
            f = Pwl(*zip(*c["f" + s]))
            E = lambda x, f=f: f(x) * lam ** (2 - x)
            g = Pwl(*zip(*c["g" + s])) if c["adapt"] else None
        eps = lambda x, g=g: 1.0 if x <= 2 else (g(x) if g else 1.0) * lam ** (2 - x)
        out[s] = ([rho.diffR(eps(z + k + 2), eps(z + k + 1)) for k in range(m + 1)], [E(z + k + 1) for k in range(m + 1)],
                  rho.diffR(eps(z + m + 2), eps(z + 1)))
    return m, out


def col(txt, what):
    expect(txt is not None, what + " not written")
    return [float(v) for v in txt.split()]


def run(case, ctx):
    c = case
    wd = ctx["wd"]
    proc.clean(wd)
    proc.write(wd, files(c))
    exe = ctx["tools"]["nrgchain"]
    m, s = star(c)
    byfile = c["via"] == "param"
    if byfile:
        proc.write(wd, {"param": switched(c, "nrgchain_tables_save=true", "nrgchains_tridiag=false")})
    must_ok(proc.run([exe] + ([] if byfile else ["s"]), wd), "nrgchain s")
    expect(proc.read(wd, "xi.dat") is None, "xi.dat written by table-saving run")
    tab = {n: col(proc.read(wd, n + ".dat"), n) for n in ("de_pos", "de_neg", "du_pos", "du_neg")}
    theta = sum(v[2] for v in s.values())
    expect_close(col(proc.read(wd, "theta.dat"), "theta")[0], theta, 1e-10, 0, "theta")
    lab = set()
    for b in ("pos", "neg"):
        df, de, _ = s[b]
        expect(len(tab["de_" + b]) == m + 1 and len(tab["du_" + b]) == m + 1, "table lengths %d %d, mMAX=%d" %
               (len(tab["de_" + b]), len(tab["du_" + b]), m))
        for k in range(m + 1):
            expect_close(tab["de_" + b][k], de[k], 1e-10, 0, "star energy %s[%d]" % (b, k))
            # differences of the cumulative integral lose digits for the smallest intervals
            expect_close(tab["du_" + b][k] ** 2, df[k] / theta, 1e-9, 4e-16, "star weight %s[%d]" % (b, k))
    expect_close(sum(v * v for b in ("pos", "neg") for v in tab["du_" + b]), 1, 1e-12, 0, "total star weight")
    if c["twostep"]:
        if byfile:
            proc.write(wd, {"param": switched(c, "nrgchain_tables_load=true")})
            if c["band"] == "adapt":
                for f in ("FSOL.dat", "FSOLNEG.dat"):     # not needed for stored tables
                    os.unlink(os.path.join(wd, f))
        must_ok(proc.run([exe] + ([] if byfile else ["l"]), wd), "nrgchain l")
        lab.add("two-step")
    else:
        proc.write(wd, {"param": paramfile(c)})
        must_ok(proc.run([exe], wd), "nrgchain")
    xi, ze = col(proc.read(wd, "xi.dat"), "xi"), col(proc.read(wd, "zeta.dat"), "zeta")
    n = c["Nmax"]
    expect(len(xi) == n + 1 and len(ze) == n + 1, "chain lengths %d %d for Nmax=%d" % (len(xi), len(ze), n))
    X, Z = lanczos(tab["de_pos"] + [-v for v in tab["de_neg"]], tab["du_pos"] + tab["du_neg"], n)
    lam = c["Lambda"]
    for k in range(n + 1):
        sc = (1 - 1 / lam) / math.log(lam) * lam ** (-k / 2 + 1 - c["z"]) if c["rescalexi"] else 1.0
        expect_close(xi[k], X[k] * c["D"] / sc, 1e-11, 0, "xi[%d]" % k)
        expect_close(ze[k], Z[k] * c["D"], 1e-11, 1e-14 * X[k] * c["D"], "zeta[%d]" % k)
    if n >= 2 and (c["band"] != "flat"):
        lab.add("nontrivial")
        lab.add("asymmetric" if c["pos"] != c["neg"] else "symmetric")
    lab.add(c["band"])
    if c["adapt"]:
        lab.add("adaptive mesh")
    return lab


@st.composite
def bad_cases(draw):
    c = draw(cases(6))
    c["band"], c["adapt"] = ("flat", False) if c["band"] == "flat" else ("adapt", c["adapt"])
    ks = ["Lambda", "z0", "z1", "noparam", "mmax", "prec", "short", "toolong", "nan"]
    if c["band"] == "adapt":
        ks += ["nodos", "nof", "negative", "onesided"] + (["nog"] if c["adapt"] else [])
    return {"c": c, "kind": draw(st.sampled_from(ks)), "v": draw(fl(0.1, 1.0)), "which": draw(st.sampled_from(["de_pos", "de_neg", "du_pos", "du_neg"]))}


def bad(case, ctx):
    c, k = case["c"], case["kind"]
    wd = ctx["wd"]
    proc.clean(wd)
    exe = ctx["tools"]["nrgchain"]
    arg = []
    if k == "toolong":
        c = dict(c, mMAX=max(1, c["Nmax"] // 3), Nmax=2 * max(1, c["Nmax"] // 3) + (1 if case["v"] < 0.5 else 4), D=1.0)
    f = files(c)
    rep = lambda key, val: f.update(param=f["param"].replace("[param]\n", "[param]\n", 1).replace("\n%s=" % key, "\n%s=%s\n#" % (key, val), 2))
    if k == "Lambda":
        f["param"] = f["param"].replace("[param]\n# a comment\nLambda=%r" % c["Lambda"], "[param]\nLambda=%r" % case["v"])
    elif k in ("z0", "z1"):
        f["param"] = f["param"].replace("\nz = %r" % c["z"], "\nz = %r" % (1 + case["v"] if k == "z1" else 0.0))
    elif k == "noparam":
        del f["param"]
    elif k == "mmax":
        f["param"] = f["param"].replace("\npreccpp", "\nmMAX=0\npreccpp").replace("\nmMAX=%s" % c["mMAX"], "")
    elif k == "prec":
        f["param"] = f["param"].replace("preccpp=%d" % c["prec"], "preccpp=10")
    elif k == "nodos":
        del f[c["dos"]]
    elif k == "nof":
        del f["FSOL.dat" if case["v"] < 0.5 else "FSOLNEG.dat"]
    elif k == "nog":
        del f["GSOL.dat" if case["v"] < 0.5 else "GSOLNEG.dat"]
    elif k == "negative":
        f[c["dos"]] += "0.5 -0.1\n" if case["v"] < 0.5 else "-0.5 -0.1\n"
    elif k == "onesided":
        f[c["dos"]] = "".join("%r %r\n" % tuple(p) for p in c["pos"])
    proc.write(wd, f)
    if k == "nan":
        must_ok(proc.run([exe, "s"], wd), "nrgchain s")
        rows = proc.read(wd, case["which"] + ".dat").split()
        rows[min(len(rows) - 1, int(case["v"] * len(rows)))] = "nan" if case["v"] < 0.7 else "inf"
        proc.write(wd, {case["which"] + ".dat": "\n".join(rows) + "\n"})
        arg = ["l"]
    if k == "short":
        must_ok(proc.run([exe, "s"], wd), "nrgchain s")
        rows = proc.read(wd, case["which"] + ".dat").split()
        rows = rows[:-1] if case["v"] > 0.4 else rows[:int(len(rows) * case["v"])]
        proc.write(wd, {case["which"] + ".dat": "\n".join(rows) + "\n" if rows else ""})
        arg = ["l"]
    r = proc.run([exe] + arg, wd)
    expect_rejected(r, "nrgchain, " + k)
    return {"nontrivial", k}


# ------------------------------------------------------------------------------- histories of calculations in one process (library)
@st.composite
def histories(draw):
    k = draw(st.integers(2, 5))
    pool = [draw(cases(5)) for _ in range(draw(st.integers(1, 3)))]
    return {"pool": pool, "steps": [[draw(st.integers(0, len(pool) - 1)), draw(st.sampled_from("pf")), draw(st.sampled_from(["c", "c", "c", "s", "l", "bad"]))]
                                    for _ in range(k)]}


def pairs(c):
    t = paramfile(c).split("[param]\n")[1].split("\n\n")[0]
    return "".join(re.sub(r"\s*=\s*", "=", l, count=1) + "\n" for l in t.split("\n") if "=" in l)


def run_history(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    exe = ctx["tools"]["nrgchain"]
    script, want = [], []
    for i, (n, kind, mode) in enumerate(case["steps"]):
        c = case["pool"][n]
        d, e = "h%d" % i, "t%d" % i
        for x in (d, e):
            os.mkdir(os.path.join(wd, x))
            f = dict(files(c), pairs=pairs(c))
            if mode == "bad":
                f = {"param": f["param"].replace("\nz = ", "\nz = 7"), "pairs": f["pairs"].replace("\nz=", "\nz=7")}
            proc.write(os.path.join(wd, x), f)
            if mode == "l":
                must_ok(proc.run([exe, "s"], os.path.join(wd, x)), "nrgchain s")
        p = os.path.join(wd, e)
        if mode != "bad":
            must_ok(proc.run([exe] + ([mode] if mode != "c" else []), p), "nrgchain")
        want.append((mode, p, os.path.join(wd, d)))
        script.append("%s %s %s\n" % (kind, "c" if mode == "bad" else mode, d))
    must_ok(proc.run([ctx["lib"]], wd, stdin="".join(script).encode()), "sequence of calculations")
    res = proc.read(wd, "results").splitlines()
    expect(len(res) == len(want), "%d results of %d calculations" % (len(res), len(want)))
    for i, (l, (mode, p, q)) in enumerate(zip(res, want)):
        w = "calculation %d of %r: " % (i + 1, [s[1:] for s in case["steps"]])
        if mode == "bad":
            expect(l == "error", w + "bad parameters are accepted")
            continue
        t = l.split()
        expect(t[:2] == ["ok", "1"], w + l[:60])
        nx, nz = int(t[3]), int(t[4])
        v = [float(x) for x in t[5:]]
        files_ = ["theta.dat", "xi.dat", "zeta.dat", "de_pos.dat", "de_neg.dat", "du_pos.dat", "du_neg.dat"]
        for f in files_:
            expect(proc.read(p, f) == proc.read(q, f), w + "%s differs from that of a separate run" % f)
        if mode == "s":
            expect(nx == 0 and nz == 0, w + "coefficients are returned")
            continue
        xi, ze = col(proc.read(p, "xi.dat"), "xi"), col(proc.read(p, "zeta.dat"), "zeta")
        expect(nx == len(xi) and nz == len(ze), w + "%d, %d coefficients returned" % (nx, nz))
        for a, b in zip(v, xi + ze):
            expect_close(a, b, 1e-14, 1e-300, w + "coefficient")
        th = proc.read(p, "theta.dat")
        if mode != "l":  # loaded tables do not contain theta
            expect_close(float(t[2]), col(th, "theta")[0], 1e-14, 0, w + "theta")
    return {"nontrivial"} if len(want) > 2 else set()


LAWS = [
    Law("histories", histories(), run_history, 300),
    Law("reference", cases(), run, 1600),
    Law("rejects", bad_cases(), bad, 400),
]

if __name__ == "__main__":
    main(sys.modules[__name__])
