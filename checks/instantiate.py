import math
import os
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from vlib import build as B
from vlib import coregen as G
from vlib import coreops as O
from vlib import nrgrun, proc
from vlib.gen import fl
from vlib.proc import expect, must_ok, table
from vlib.runner import Law, main

PROPERTY = "T13"
SYMS = ["QS", "QSZ", "U1", "SPSU2", "P", "NONE", "ISO", "SU2", "SPU1", "ISOSZ"]
CFGS = [c for c in G.CFGS if c.nch == 1 and c.sym in SYMS and c.sc != "must"]
RULE = ("Single-channel templates for ten symmetry types: the sector Hamiltonians of a random cluster in a random orthogonal basis, written as "
        "expressions in the parameters and the Wilson-chain coefficients, with random operators (inline or in files), scales, comments and chains. "
        "Non-trivial: at least one sector of dimension two or more.")
ASSUMPTIONS = []


def build(scratch, tier):
    return {"inst": nrgrun.build_nrg(scratch, syms=SYMS, name="instantiate", main="tools/instantiate/instantiate.cc",
                                     inc=["tools/nrgchain"], extra=[("tools/nrgchain/nrgchain.cc", ["-DNRGCHAIN_NO_MAIN"])]),
            "tools": B.build_tools(["nrgchain"], scratch)}


@st.composite
def cases(draw):
    c = draw(st.sampled_from(CFGS))
    case = {"cfg": c.name, "seed": draw(st.integers(0, 2 ** 31 - 1)), "imp": draw(st.sampled_from(c.imps)), "degen": draw(st.integers(0, 4)) == 0,
            "cplx": False, "trim": draw(st.sampled_from([None, None, 8])), "Lambda": draw(st.sampled_from([2.0, 3.0, 1.7])),
            "z": draw(st.sampled_from([1.0, 0.5, 0.83])), "Nmax": draw(st.integers(1, 12)), "scale": draw(st.sampled_from([1.0, 0.37, 2.5])),
            "vars": {k: draw(fl(-1, 2)) for k in ("U", "eps_1", "Gamma")}, "ops": draw(st.lists(st.sampled_from("sdt"), max_size=3)),
            "files": draw(st.integers(0, 2)), "expr": draw(st.integers(0, 2 ** 31 - 1)), "adapt": c.zeta and draw(st.booleans()), "mode": draw(st.sampled_from(["full", "full", "seed"]))}
    case["tail"] = draw(st.sampled_from(["z", "T", "none"]))
    return case


# ------------------------------------------------------------------------------------------------------------- expressions
class Expr:
    """random expressions with a given value"""

    def __init__(self, rng, env):
        self.r, self.env = rng, env

    def pick(self, x):
        return x[self.r.integers(len(x))]

    def atom(self):
        k = self.pick(["num", "var", "var", "fn", "coef", "pi"])
        if k == "num":
            v = round(float(self.r.normal()), 4)
            return ("%r" % v if v >= 0 else "(%r)" % v), v
        if k == "var":
            n = self.pick(sorted(self.env["vars"]))
            return n, self.env["vars"][n]
        if k == "pi":
            return self.pick(["Pi", "pi"]), math.pi
        o, c = self.pick([("(", ")"), ("[", "]")])
        sp = self.pick(["", " "])
        if k == "coef":
            f = self.pick(["gammaPolCh", "coefxi", "coefzeta"])
            if f == "gammaPolCh":
                return f + o + sp + "1" + c, math.sqrt(self.env["theta"] / math.pi)
            t = self.env["xi" if f == "coefxi" else "zeta"]
            i = int(self.r.integers(len(t)))
            return "%s%s1,%s%d%s" % (f, o, sp, i, c), t[i]
        f, g = self.pick([("Sqrt", math.sqrt), ("sqrt", math.sqrt), ("exp", math.exp), ("log", math.log), ("Conjugate", lambda x: x)])
        v = round(float(abs(self.r.normal())) + 0.1, 3)
        return f + o + sp + "%r" % v + c, g(v)

    def expr(self, depth):
        """(text, value, binding strength: 0 sum, 1 product, 2 primary)"""
        if depth == 0 or self.r.random() < 0.2:
            t, v = self.atom()
            return t, v, 2
        a, b = self.expr(depth - 1), self.expr(depth - 1)
        op = self.pick("+-*/")
        sp = self.pick(["", " ", "", "\n  "])
        par = lambda x, lvl: "(" + x[0] + ")" if x[2] < lvl else x[0]
        if op == "/" and abs(b[1]) < 0.05:
            op = "*"
        if op in "+-":
            return par(a, 0) + sp + op + sp + par(b, 1), a[1] + b[1] if op == "+" else a[1] - b[1], 0
        return par(a, 1) + sp + op + sp + par(b, 2), a[1] * b[1] if op == "*" else a[1] / b[1], 1

    def of(self, x):
        k = self.r.integers(4)
        if k == 0 or not math.isfinite(x):
            return "%.17g" % x
        t, v, lvl = self.expr(2)
        if not abs(v) < 20:
            return "%.17g" % x
        if k == 1:
            return "-(" + t + ") + " + "%.17g" % (x + v)
        rest = x - v
        return t + (" + %.17g" % rest if rest >= 0 else " - %.17g" % -rest)

    def matrix(self, m):
        com = "# produced by a generator {1,2}\n" if self.r.random() < 0.3 else ""
        return com + "{" + self.pick([", ", ",\n "]).join("{" + ", ".join(self.of(x) for x in r) + "}" for r in m) + "}\n"


def q(rng, n):
    return np.linalg.qr(rng.normal(size=(n, n)))[0]


def paramtext(case):
    p = ["[extra]"] + ["%s=%r" % kv for kv in case["vars"].items()] + ["model=none", "", "[param]", "symtype=" + case["cfg"].split("/")[0],
         "Lambda=%r" % case["Lambda"], "z=%r" % case["z"], "Nmax=%d" % case["Nmax"], "keep=100", "T=0.01", "preccpp=2000", "mMAX=%d" % (case["Nmax"] + 8)]
    p += [] if case["adapt"] else ["band=flat"]
    return "\n".join(p) + "\n"


def paramfiles(case):
    f = {"param": paramtext(case)}
    if case["adapt"]:
        r = np.random.default_rng(case["expr"])
        f["Delta.dat"] = "".join("%r %r\n" % (x, y) for x, y in zip([-1.0, -0.4, -1e-9, 1e-9, 0.7, 1.0], (0.1 + r.random(6)).round(6).tolist()))
        for n in ("FSOL.dat", "FSOLNEG.dat"):
            f[n] = "1 %r\n%r %r\n" % (1 / case["Lambda"], case["Nmax"] + 12.0, round(0.45 + 0.05 * r.random(), 5))
    return f


def world(case):
    rng = np.random.default_rng(case["expr"])
    cl = G.cluster(case)
    Q = {i: q(rng, len(e)) for i, e in cl.E.items()}
    H = {i: Q[i] @ np.diag(e) @ Q[i].T for i, e in cl.E.items()}
    rot = lambda me: {(a, b): Q[a] @ m @ Q[b].T for (a, b), m in me.items()}
    spec = [{"k": k, "name": "%s%d" % (k.upper(), i), "seed": int(rng.integers(1 << 30)), "herm": True, "dress": False}
            for i, k in enumerate(case["ops"]) if k in O.kinds(cl.sym.name)]
    blocks = [("f %d %d" % (ch, i), rot(me)) for ch, per in enumerate(cl.fops()) for i, me in enumerate(per)]
    ops = [(o.letter + o.name, rot(o.me() if callable(o.me) else o.me)) for o in O.make(cl, spec)]
    return cl, H, blocks, ops, rng


def template(case, cl, H, blocks, ops, rng, env):
    ex = Expr(rng, env)
    f = {}
    L = ["# Input file for NRG Ljubljana", "# symtype \t" + cl.sym.name, "#!9", "# Number of channels, chain sites, subspaces: ",
         "1\t%d\t%d" % (rng.integers(100), len(H)), "# SCALE \t%r" % case["scale"], "# Energies:"]
    for k, i in enumerate(sorted(H)):
        L += ["\t".join(map(str, i)), str(len(H[i])), "DIAG \tham_%d" % k]
        f["ham_%d" % k] = ex.matrix(H[i])

    def block(name, me):
        L.extend([name, str(len(me))])
        for k, (a, b) in enumerate(sorted(me)):
            L.append("\t".join(map(str, a + b)))
            if case["files"] == 1 or (case["files"] == 2 and rng.random() < 0.5):
                fn = "op.%s_%d" % (name.replace(" ", ""), k)
                L.append(fn)
                f[fn] = ex.matrix(me[(a, b)])
            else:
                L.extend("\t".join("%.17g" % x for x in r) for r in me[(a, b)])
    L.append("# Irreducible matrix elements for Wilson chains:")
    for n, me in blocks:
        block(n, me)
    L += ["# GS energy in absolute units:", "e", "0"]
    for n, me in ops:
        L.append("# next one")
        block(n, me)
    L += {"z": ["# Discretization tables:", "z", "1", "0", "0"], "T": ["T"], "none": []}[case["tail"]]
    f["data.in"] = "\n".join(L) + "\n"
    return f


def put(wd, case, tmpl):
    proc.clean(wd)
    proc.write(wd, paramfiles(case))
    os.makedirs(os.path.join(wd, "template"))
    proc.write(os.path.join(wd, "template"), tmpl)


def col(wd, n):
    return np.array([r[0] for r in table(open(os.path.join(wd, n)).read())])


def chain(case, ctx):
    wd = ctx["wd"]
    proc.clean(wd)
    proc.write(wd, paramfiles(case))
    must_ok(proc.run([ctx["tools"]["nrgchain"]], wd), "nrgchain")
    xi, zeta, theta = (col(wd, n + ".dat") for n in ("xi", "zeta", "theta"))
    must_ok(proc.run([ctx["inst"], "--wilson-only"], wd, env=nrgrun.ENV), "instantiate --wilson-only")
    for n, v in (("xi1.dat", xi), ("zeta1.dat", zeta), ("theta1.dat", theta)):
        x = col(wd, n)
        expect(x.shape == v.shape and np.allclose(x, v, rtol=1e-13, atol=1e-300), "--wilson-only: %s differs from the nrgchain tool" % n)
    return xi, zeta, float(theta[0])


def parse(text):
    """data file -> header, {invar: energies}, [(name, {(I1,I2): matrix})], ground-state energy, tables"""
    L = [l for l in (x.strip() for x in text.splitlines()) if l and not l.startswith("#")]
    head = [int(x) for x in L[0].split()]
    p, E, order = 1, {}, []
    for _ in range(head[2]):
        i = tuple(map(int, L[p].split()))
        e = np.array([float(x) for x in L[p + 2].split()])
        expect(len(e) == int(L[p + 1]), "data: %d energies for dimension %s" % (len(e), L[p + 1]))
        E[i] = e
        p += 3
    blocks, gs, tabs = [], None, []
    while p < len(L):
        if L[p] == "e":
            gs, p = float(L[p + 1]), p + 2
        elif L[p] == "z":
            p += 1
            while p < len(L):
                n = int(L[p])
                tabs.append(np.array([float(x) for x in L[p + 1:p + 2 + n]]))
                p += n + 2
        else:
            name, n = L[p], int(L[p + 1])
            p += 2
            me = {}
            for _ in range(n):
                z = list(map(int, L[p].split()))
                a, b = tuple(z[:len(z) // 2]), tuple(z[len(z) // 2:])
                r = len(E[a])
                me[(a, b)] = np.array([[float(x) for x in l.split()] for l in L[p + 1:p + 1 + r]])
                p += 1 + r
            blocks.append((name, me))
    return head, E, blocks, gs, tabs


def run(case, ctx):
    wd = ctx["wd"]
    xi, zeta, theta = chain(case, ctx)
    cl, H, blocks, ops, rng = world(case)
    env = {"vars": case["vars"], "xi": xi.tolist(), "zeta": zeta.tolist(), "theta": theta}
    tmpl = template(case, cl, H, blocks, ops, rng, env)
    put(wd, case, tmpl)
    before = set(os.listdir(wd))
    if case["mode"] == "seed":
        r = must_ok(proc.run([ctx["inst"], "--diag-seed-only"], wd, env=nrgrun.ENV), "instantiate --diag-seed-only")
        expect("data" not in os.listdir(wd), "--diag-seed-only wrote data")
    else:
        r = must_ok(proc.run([ctx["inst"]], wd, env=nrgrun.ENV), "instantiate")
        extra = set(os.listdir(wd)) - before - {"data"}
        expect(not extra, "temporary files are left behind: %s" % sorted(extra))
        plain = open(os.path.join(wd, "data")).read()
        os.unlink(os.path.join(wd, "data"))
        r = must_ok(proc.run([ctx["inst"], "--generate-temporaries"], wd, env=nrgrun.ENV), "instantiate --generate-temporaries")
        text = open(os.path.join(wd, "data")).read()
        expect(text == plain, "the data file depends on --generate-temporaries")
    gs = min(e.min() for e in cl.E.values())
    big = max(1.0, max(np.abs(h).max() for h in H.values()))
    tol = 1e-12 * big * 10
    out = [l for l in r.out.splitlines() if l.startswith("E_gs=")]
    expect(len(out) == 1 and abs(float(out[0][5:]) - gs) <= tol, "E_gs: %s instead of %r" % (out, gs))
    V = {}
    for i in cl.E:
        name = ".".join(map(str, i))
        b = open(os.path.join(wd, "vec." + name), "rb").read()
        n, m = struct.unpack("II", b[:8])
        expect(n == m == len(cl.E[i]), "vec.%s is %dx%d" % (name, n, m))
        V[i] = np.frombuffer(b[8:], float).reshape(n, m)
        h = np.array(table(open(os.path.join(wd, "ham." + name)).read())).reshape(n, n)
        expect(np.abs(h - H[i]).max() <= tol, "ham.%s differs from the template's matrix" % name)
        expect(np.abs(V[i] @ V[i].T - np.eye(n)).max() <= 1e-11, "vec.%s is not orthonormal" % name)
        expect(np.abs(V[i] @ H[i] @ V[i].T - np.diag(cl.E[i])).max() <= tol, "vec.%s does not diagonalise the template's matrix in ascending order" % name)
    for n, v in (("xi1.dat", xi), ("zeta1.dat", zeta)):
        expect(np.allclose(col(wd, n), v, rtol=1e-13, atol=1e-300), n)
    lab = [case["cfg"], case["mode"]] + (["nontrivial"] if any(len(e) > 1 for e in cl.E.values()) else [])
    if case["mode"] == "seed":
        return lab
    head, E, bl, e, tabs = parse(text)
    expect(head == [1, case["Nmax"], len(H)], "header %s" % head)
    expect(list(E) == sorted(H), "subspaces %s" % list(E))
    for i in H:
        expect(np.abs(E[i] - (cl.E[i] - gs) / case["scale"]).max() <= tol / case["scale"], "energies of %s: %s instead of %s" % (i, E[i], (cl.E[i] - gs) / case["scale"]))
    expect(e is not None and abs(e - gs) <= tol, "ground-state energy %r instead of %r" % (e, gs))
    expect([n for n, _ in bl] == [n for n, _ in blocks + ops], "blocks %s" % [n for n, _ in bl])
    for (n, me), (_, m0) in zip(bl, blocks + ops):
        expect(sorted(me) == sorted(m0), "%s: subspace pairs %s" % (n, sorted(me)))
        for k, m in m0.items():
            y = V[k[0]] @ m @ V[k[1]].T
            expect(me[k].shape == y.shape and np.abs(me[k] - y).max() <= 1e-11 * max(1.0, np.abs(m).max()) * len(m), "%s: matrix elements of %s" % (n, k))
    expect(len(tabs) == 2, "%d tables" % len(tabs))
    for t, v, n in zip(tabs, (xi, zeta), ("xi", "zeta")):
        expect(len(t) == case["Nmax"] + 1 and np.allclose(t, v[:case["Nmax"] + 1], rtol=1e-13, atol=1e-300), "table of " + n)
    return lab


@st.composite
def bads(draw):
    c = draw(cases())
    c["mode"] = "full"
    c["bad"] = draw(st.sampled_from(["dim", "rows", "unknownvar", "div0", "nofile", "noe", "fcount", "fextra", "dup", "badqn", "channels", "polarized", "trail",
                                     "badlist", "range", "noscale", "opdim", "inline", "shell", "unknownblock", "nan", "symtype", "nmax0"]))
    return c


def bad(case, ctx):
    """a template that cannot be instantiated: error status and an earlier data file is left alone"""
    wd, k = ctx["wd"], case["bad"]
    cl, H, blocks, ops, rng = world(case)
    case = dict(case, files=1 if k == "opdim" else 0 if k == "inline" else case["files"])
    env = {"vars": case["vars"], "xi": [0.5], "zeta": [0.0], "theta": 2.0}
    tmpl = template(case, cl, H, blocks, ops, rng, env)
    h, d = "ham_%d" % rng.integers(len(H)), tmpl["data.in"]
    L = d.split("\n")
    par = paramtext(case)
    if k == "dim":
        i = L.index("# Energies:") + 2
        L[i] = str(int(L[i]) + 1)
    elif k == "rows":
        tmpl[h] = "{{1, 2}, {3}}"
    elif k == "unknownvar":
        tmpl[h] = tmpl[h].replace("{{", "{{0*Vhyb+", 1)
    elif k == "div0":
        tmpl[h] = tmpl[h].replace("{{", "{{1/(2-2)+", 1)
    elif k == "nan":
        tmpl[h] = tmpl[h].replace("{{", "{{nan+", 1)
    elif k == "range":
        tmpl[h] = tmpl[h].replace("{{", "{{%s+" % ["coefxi(1,-1)", "coefzeta(1,1000)", "gammaPolCh(2)", "coefxi(0,0)"][rng.integers(4)], 1)
    elif k == "trail":
        tmpl[h] += "1\n"
    elif k == "badlist":
        tmpl[h] = tmpl[h].rstrip()[:-1] + "\n"
    elif k == "shell":
        tmpl[h] = tmpl[h] + "!touch hacked\n"
    elif k == "nofile":
        del tmpl[h]
    elif k == "noe":
        i = L.index("e")
        del L[i:i + 2]
    elif k == "fcount":
        i = [j for j, l in enumerate(L) if l.startswith("f ")]
        del L[i[-1]:L.index("e")]
    elif k == "fextra":
        i = L.index("e")
        L[i:i] = ["f 9 9", "0"]
    elif k == "dup":
        i = L.index("# Energies:") + 1
        L[i:i] = L[i:i + 3]
        L[i - 3] = "1\t5\t%d" % (len(H) + 1)
    elif k == "badqn":
        i = L.index("# Energies:") + 1
        L[i] += "\t7"
    elif k == "channels":
        i = L.index("# Number of channels, chain sites, subspaces: ") + 1
        L[i] = "2" + L[i][1:]
    elif k == "polarized":
        par += "polarized=true\n"
    elif k == "nmax0":
        par = par.replace("Nmax=%d" % case["Nmax"], "Nmax=0")
    elif k == "symtype":
        par = par.replace("symtype=", "symtype=X")
    elif k == "noscale":
        L = [l for l in L if "SCALE" not in l]
    elif k == "unknownblock":
        i = L.index("e")
        L[i:i] = ["x 1", "0"]
    elif k == "opdim":
        o = sorted(x for x in tmpl if x.startswith("op."))
        if not o:
            return []
        tmpl[o[0]] = "{{1,2,3,4,5,6,7,8,9,1,2,3,4,5,6,7,8}}"
    elif k == "inline":
        i = [j for j, l in enumerate(L) if l.startswith("f ")][0] + 3
        if L[i - 2] == "0":
            return []
        L[i] += "\t1.5"
    tmpl["data.in"] = "\n".join(L)
    put(wd, case, tmpl)
    proc.write(wd, {"param": par, "data": "keep me\n"})
    r = proc.run([ctx["inst"]], wd, env=nrgrun.ENV)
    expect(r.rc == 1, "%s: %r" % (k, r))
    expect(open(os.path.join(wd, "data")).read() == "keep me\n", "%s: the data file was changed" % k)
    expect("hacked" not in os.listdir(wd), "%s: a shell escape was executed" % k)
    return ["nontrivial", k]


LAWS = [Law("instantiate", cases(), run, 1200, 20000), Law("rejects", bads(), bad, 600, 8000)]
if __name__ == "__main__":
    main(sys.modules[__name__])
