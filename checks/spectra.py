import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib  # noqa: F401
import numpy as np
from hypothesis import strategies as st

from vlib import coregen as G
from vlib import coreops as O
from vlib import lehmann as LM
from vlib import nrgrun
from vlib.nrgref import Ambiguous
from vlib.proc import expect, must_ok, table
from vlib.runner import Invalid, Law, Violation, main

PROPERTY = "C02"
RULE = ("Random impurity clusters and Wilson chains (as for C01) with one or two random operators of a random kind (singlet, odd-parity singlet, "
        "global charge, doublet, triplet, orbital triplet, quadruplet), real or complex, Hermitian or not, random temperature and a random set of "
        "algorithms. Non-trivial: the correlator is non-zero, and either states are discarded before the last iteration or a complete-basis "
        "(CFS/FDM) or density-matrix algorithm is used with more than one iteration.")
ASSUMPTIONS = ["cases in which the truncation threshold falls between levels closer than 1e-7 are outside the domain (counted)",
               "Qtot of SL3 (tabulated with another offset per site) is left out"]
MATS = ["FTmats", "DMNRGmats", "FDMmats"]
REAL = ["FT", "DMNRG", "FDM", "FDMgt", "FDMls", "CFS", "CFSgt", "CFSls"]
FLAG = {"FTmats": "finitemats", "DMNRGmats": "dmnrgmats", "FDMmats": "fdmmats", "FT": "finite", "DMNRG": "dmnrg", "FDM": "fdm", "FDMgt": "fdmgt",
        "FDMls": "fdmls", "CFS": "cfs", "CFSgt": "cfsgt", "CFSls": "cfsls"}
PREFIX = {"s": "corr", "p": "corr", "g": "corr", "d": "spec", "t": "spin", "o": "orbspin", "q": "specq"}
SPECPAR = {"s": "specs", "p": "specs", "g": "specs", "d": "specd", "t": "spect", "o": "specot", "q": "specq"}
CFGS = G.CFGS


def build(scratch, tier):
    return {"nrg": os.environ.get("VERIF_NRG") or nrgrun.build_nrg(scratch)}


# ---------------------------------------------------------------------------------------------------------------- generators
@st.composite
def opspecs(draw, cfg, cplx, kinds=None):
    ks = [k for k in O.kinds(cfg.sym) if kinds is None or k in kinds] or ["s"]
    if cfg.sym.startswith("ISO") and cfg.nch == 3:
        ks = [k for k in ks if k not in "dt"] or ["s"]  # the program has no tables for these (it stops)
    k = draw(st.sampled_from(ks))
    seed = st.integers(0, 2 ** 31 - 1)
    if k == "g":
        gl = O.globals_of(cfg.sym, cfg.nch, cplx)
        if gl:
            n = draw(st.sampled_from(gl))
            return [{"k": "g", "name": n, "seed": 0}, {"k": "s", "name": "A", "seed": draw(seed)}], draw(st.sampled_from([[0, 0], [0, 1], [1, 0]]))
        k = "s"
    ops = [{"k": k, "name": n, "seed": draw(seed), "dress": draw(st.booleans()), "herm": draw(st.booleans())} for n in "AB"]
    pair = draw(st.sampled_from([[0, 0], [0, 0], [0, 1], [1, 0]]))
    if pair == [0, 0]:
        ops = ops[:1]
    if draw(st.booleans()):
        ops.append({"k": "s", "name": "C", "seed": draw(seed), "herm": draw(st.sampled_from([True, True, False]))})
    return ops, pair


@st.composite
def base(draw, cfgs=None, kinds=None):
    case = draw(G.problems(cfgs or CFGS, keepkinds=("keep", "keep", "keep", "keepenergy", "keepall")))
    case["ops"], case["pair"] = draw(opspecs(G.cfg(case), case["cplx"], kinds))
    if any(o["name"] in ("Ixtot", "Iytot") for o in case["ops"]):
        case["n0"] += case["n0"] % 2    # the sign alternates along the chain
    case["T"] = draw(st.sampled_from([0.01, 0.1, 0.3, 1.0, 0.002]))
    case["calc0"] = draw(st.booleans()) and case["n0"] == 0
    case["strategy"] = draw(st.sampled_from(["kept", "all"]))
    case["lastall"] = draw(st.sampled_from([None, None, True]))
    return case


@st.composite
def mcases(draw, cfgs=None, kinds=None):
    case = draw(base(cfgs, kinds))
    case["algs"] = draw(st.lists(st.sampled_from(MATS), min_size=1, max_size=3, unique=True))
    case["mats"] = draw(st.sampled_from([5, 5, 1, 12]))
    return case


@st.composite
def rcases(draw, cfgs=None, kinds=None):
    case = draw(base(cfgs, kinds))
    case["algs"] = draw(st.lists(st.sampled_from(REAL), min_size=1, max_size=4, unique=True))
    case["bins"] = draw(st.sampled_from([50, 3, 10, 300]))
    case["emin"] = draw(st.sampled_from([-1.0, -1.0, 3e-3]))
    case["patch"] = draw(st.sampled_from(["NN2even", "NN2odd", "NN1", "NN2avg"]))
    case["goodE"] = draw(st.sampled_from([2.0, 1.0, 0.3]))
    case["NNtanh"] = draw(st.sampled_from([0.5, 0.0, 3.0]))
    case["reim"] = draw(st.booleans())
    return case


@st.composite
def scases(draw, cfgs=None, kinds=None):
    case = draw(base(cfgs, kinds))
    case["algs"] = draw(st.lists(st.sampled_from(["GT", "I1T", "I2T", "CHIT", "customfdm", "FDMtd"]), min_size=1, max_size=4, unique=True))
    if "FDMtd" in case["algs"]:
        case["eoff"] = draw(st.sampled_from([-700.0, 0.0, 4000.0]))
    case["fdmexpvn"] = draw(st.integers(0, 1))
    case["gtp"] = draw(st.sampled_from([0.7, 0.3, 1.5]))
    if not any(o["k"] == "s" for o in case["ops"]):
        case["ops"] = case["ops"] + [{"k": "s", "name": "C", "seed": case["seed"] % 1000, "herm": True}]
    return case


# ------------------------------------------------------------------------------------------------------------------- oracle
def prep(case, **kw):
    """cluster, coefficients, operators, parameters, reference; a problem too large for the reference is made smaller"""
    case = dict(case)
    for _ in range(7):
        cl = G.cluster(case)
        ops = O.make(cl, case["ops"])
        keepall = any(a.startswith(("FDM", "CFS")) or a == "customfdm" for a in case["algs"]) or bool(case.get("lastall"))
        emb = {k: c[0] for o in ops for k, c in zip(o.keys(), o.comps)}
        site = {o.keys()[0]: (lambda m, n=o.name: O.local_global(n, m)) for o in ops if o.letter == "g"}
        co = G.coefs(case)
        p = G.params(case, T=case["T"], calc0=case["calc0"], strategy=case["strategy"], lastall=case.get("lastall"), **kw)
        try:
            ref = G.ref(case, cl, co, p, ops=emb, site_ops=site, lastall=keepall, maxdim=1100, maxblock=300 if len(cl.mp.invars) <= 4 else 120)
            return case, cl, co, ops, p, ref
        except Ambiguous as e:
            if "large" not in str(e):
                raise Invalid()
            if not case.get("trim") and cl.nch > 1:
                case["trim"] = 12
            elif case["keep"] > 8:
                case["keep"] = max(5, case["keep"] // 2)
                case.pop("keepall", None)
                if "keepmin" in case:
                    case["keepmin"] = min(case["keepmin"], case["keep"])
            elif case["Nmax"] > 1:
                case["Nmax"] -= 1
            else:
                raise Invalid()
    raise Invalid()


def spins(cl, o):
    """suffix of the output file -> indices of components"""
    if not cl.sym.field or not o.letter == "d":
        return {"": range(len(o.comps))}
    r = {"-u": [], "-d": []}
    for k, (top, ranks) in enumerate(o.comps):
        d = cl._shift(top)
        if d is None:
            continue
        r["-u" if d["Sz"] == 1 else "-d"].append(k)
    return r


def fermionic(o):
    return o.letter in "dq"


def setup(case, **kw):
    case, cl, co, ops, p, ref = prep(case, **kw)
    o1, o2 = ops[case["pair"][0]], ops[case["pair"][1]]
    suff = spins(cl, o1)
    pairs = " ".join("%s-%s%s" % (o1.name, o2.name, s) for s in suff)
    text = cl.text(G.top(case), G.scale0(case), co, ops=[(o.letter, o.name, o.me) for o in ops])
    return case, cl, ops, p, ref, o1, o2, suff, pairs, text


def dens(case, ref):
    return LM.Dens(ref, case["T"])


def needs_dens(algs):
    return any(not a.startswith("FT") for a in algs)


def allpieces(case, ref, alg, o1, o2, comps, D):
    r = []
    for N in range(-1 if alg.startswith("FT") and case["calc0"] else 0, G.steps(case)):
        ps = []
        for k in comps:
            ps += LM.pieces(alg, ref, N, o1.keys()[k], o2.keys()[k], fermionic(o1), case["T"], D)
        r.append((N, ps))
    return r


def labels(case, ref, o1, size):
    out = [case["cfg"], "kind:" + o1.letter] + ["alg:" + a for a in case["algs"]]
    cut = any(not s.kept.all() for s in ref.shells[:-1])
    rich = G.steps(case) > 1 and any(a.startswith(("FDM", "CFS", "DMNRG")) for a in case["algs"])
    if size > 1e-6 and (cut or rich):
        out.append("nontrivial")
    if case["cplx"]:
        out.append("complex")
    if case["pair"][0] != case["pair"][1]:
        out.append("cross-correlator")
    return out


def path_of(ctx, prefix, alg, o1, o2, s, ext):
    fn = "%s_%s_dens_%s-%s%s.%s" % (prefix, alg, o1.name, o2.name, s, ext)
    path = os.path.join(ctx["wd"], fn)
    expect(os.path.exists(path), "%s is missing" % fn)
    return fn, path


# ---------------------------------------------------------------------------------------------------------------- Matsubara
def run_mats(case, ctx):
    case, cl, ops, p, ref, o1, o2, suff, pairs, text = setup(case)
    for a in case["algs"]:
        p[FLAG[a]] = True
    n = p["mats"] = case["mats"]
    p[SPECPAR[o1.letter]] = pairs
    must_ok(G.run(ctx, case, p, text), "nrg")
    T = case["T"]
    D = dens(case, ref) if needs_dens(case["algs"]) else None
    size = 0.0
    for a in case["algs"]:
        for s, comps in suff.items():
            fn, path = path_of(ctx, PREFIX[o1.letter], a, o1, o2, s, "dat")
            rows = np.array(table(open(path).read()))
            expect(rows.shape == (n, 3), "%s: %r values" % (fn, rows.shape))
            f = fermionic(o1)
            w = np.array([(2 * k + (1 if f else 0)) * np.pi * T for k in range(n)])
            expect(np.abs(rows[:, 0] - w).max() <= 1e-10 * max(1, w[-1]), "%s: frequencies %r" % (fn, rows[:3, 0]))
            ps = [x for _, l in allpieces(case, ref, a, o1, o2, comps, D) for x in l]
            g = LM.matsubara(ps, T, f, n)
            got = rows[:, 1] + 1j * rows[:, 2]
            tot = sum(np.abs(A).sum() + np.abs(B).sum() for E, A, B in ps) / max(T, 1e-3)
            d = np.abs(got - g)
            lim = np.full(n, 1e-8 * max(1.0, tot))
            if not f:
                # (w1-w2)/E of almost degenerate levels: the energies are rounded, and the limit is used only below 1e-12
                lim[0] += sum(np.sum((np.abs(A) + np.abs(B)) * 1e-15 / np.maximum(np.abs(E), 1e-12)) for E, A, B in (np.broadcast_arrays(*q) for q in ps))
            expect((d <= lim).all(), "%s: %r instead of %r" % (fn, got[:3], g[:3]))
            size = max(size, np.abs(g).max())
    return labels(case, ref, o1, size)


# ---------------------------------------------------------------------------------------------------- binned spectral functions
class Mesh:
    def __init__(self, emin, emax, bins):
        self.emin, self.bins = emin, bins
        self.lo, self.hi = np.floor(np.log10(emin)), np.ceil(np.log10(emax))
        self.n = int((self.hi - self.lo) * bins + 1.0)
        self.e = 10.0 ** (self.lo + np.arange(self.n) / bins)

    def add(self, out, E, W):
        """out[0]: energies >= 0, out[1]: energies < 0"""
        E, W = np.broadcast_arrays(E, W)
        E, W = E.ravel(), W.ravel()
        for i, x in ((0, E >= 0), (1, E < 0)):
            e, w = np.abs(E[x]), W[x]
            with np.errstate(divide="ignore"):
                t = np.where(e < self.emin, -1.0, (np.log10(e) - self.lo) * self.bins)
            k = np.floor(t)
            low, high = k < 0, k >= self.n - 1
            np.add.at(out[i], np.zeros(low.sum(), int), w[low])
            np.add.at(out[i], np.full(high.sum(), self.n - 1), w[high])
            m = ~low & ~high
            ki, r = k[m].astype(int), t[m] - k[m]
            np.add.at(out[i], ki, (1 - r) * w[m])
            np.add.at(out[i], ki + 1, r * w[m])


def window(case, e, N, sc, first, last):
    f = case["Lambda"] if G.cfg(case).nch == 1 and case["patch"] != "NN1" else np.sqrt(case["Lambda"])
    lo, x, hi = case["goodE"] * sc * f ** np.array([0, 1, 2])
    t = case["NNtanh"]

    def ramp(y):
        if t <= 0:
            return y
        return (np.tanh(t * (y - 0.5)) - np.tanh(-t * 0.5)) / (np.tanh(t * 0.5) - np.tanh(-t * 0.5))
    w = np.where(e <= x, ramp((e - lo) / (x - lo)), 1 - ramp((e - x) / (hi - x)))
    if last:
        w = np.where(e <= x, 1.0, w)
    if first:
        w = np.where(e >= x, 1.0, w)
    return np.where((lo < e) & (e < hi), w, 0.0) * (0.5 if case["patch"] == "NN2avg" else 1.0)


def merging(case, N):
    p = case["patch"]
    return p in ("NN1", "NN2avg") or ((N % 2 == 0) == (p == "NN2even"))


def weight_of(alg, A, B, swapped, nonlast, s):
    """swapped: the recorded defect of the complete-Fock-space algorithm (weights of the iterations before the last one)"""
    if alg.endswith("gt"):
        return s * B if swapped and nonlast else A
    if alg.endswith("ls"):
        return s * A if swapped and nonlast else B
    return s * (A + B) if swapped and nonlast else A + B


def binned(case, ref, alg, o1, o2, comps, D, mesh, swapped=False):
    tot = np.zeros((2, mesh.n), complex)
    s = LM.sgn(fermionic(o1))
    patch = alg in ("FT", "DMNRG")
    mass = 0.0
    for N, ps in allpieces(case, ref, alg, o1, o2, comps, D):
        if patch and not merging(case, G.n0(case) + max(N, 0)):
            continue
        cur = np.zeros((2, mesh.n), complex)
        sc = G.sc(case, N + 1)
        last = N == G.steps(case) - 1
        f = case["Lambda"] if G.cfg(case).nch == 1 and case["patch"] != "NN1" else np.sqrt(case["Lambda"])
        for E, A, B in ps:
            W = weight_of(alg, A, B, swapped, not last, s)
            if alg == "DMNRG":
                W = np.where((np.abs(E) < case["goodE"] * sc) | (np.abs(E) > case["goodE"] * sc * f ** 2), 0, W)
            mass += np.abs(W).sum()
            mesh.add(cur, E, W)
        if patch:
            cur = cur * window(case, mesh.e, N, sc, N <= 0, max(N, 0) == G.steps(case) - 1)
        tot += cur
    return tot, mass


def read_bin(path, reim, mesh, fn):
    x = np.fromfile(path, float).reshape(-1, 3 if reim else 2)
    e, w = x[:, 0], x[:, 1] + (1j * x[:, 2] if reim else 0)
    k = np.rint((np.log10(np.abs(e)) - mesh.lo) * mesh.bins).astype(int)
    expect(len(k) and k.min() >= 0 and k.max() < mesh.n, "%s: energies %r outside the mesh" % (fn, e[:3]))
    expect(np.abs(np.abs(e) / mesh.e[k] - 1).max() < 1e-10, "%s: energies are not those of the mesh" % fn)
    npos = int((e > 0).sum())
    expect((e[:npos] > 0).all() and (np.diff(e[:npos]) > 0).all() and (np.diff(-e[npos:]) > 0).all(), "%s: energies not in order" % fn)
    expect(mesh.n - 1 in k[:npos] and mesh.n - 1 in k[npos:], "%s: the outermost bins are missing" % fn)
    out = np.zeros((2, mesh.n), complex)
    out[0][k[:npos]], out[1][k[npos:]] = w[:npos], w[npos:]
    return out


def bins_differ(got, ref, reim, tol):
    d = got - ref
    if not reim:
        d = d.real
    low = abs(d[0, 0] + d[1, 0])               # energies equal to zero up to rounding belong to either set
    return max(low, np.abs(d[:, 1:]).max())


def run_bins(case, ctx):
    case, cl, ops, p, ref, o1, o2, suff, pairs, text = setup(case)
    for a in case["algs"]:
        p[FLAG[a]] = True
    p[SPECPAR[o1.letter]] = pairs
    p.update(savebins=True, broaden=False, bins=case["bins"], discard_trim=0, discard_immediately=0, reim=case["reim"], goodE=case["goodE"],
             NNtanh=case["NNtanh"], NN1=case["patch"] == "NN1", NN2avg=case["patch"] == "NN2avg", NN2even=case["patch"] != "NN2odd")
    if case["emin"] > 0:
        p["emin"] = case["emin"]
    must_ok(G.run(ctx, case, p, text), "nrg")
    sc = lambda N: G.sc(case, N)
    mesh = Mesh(case["emin"] if case["emin"] > 0 else sc(G.steps(case)) / 100, sc(-G.n0(case)) * 100, case["bins"])
    D = dens(case, ref) if needs_dens(case["algs"]) else None
    size, known = 0.0, None
    for a in case["algs"]:
        for s, comps in suff.items():
            fn, path = path_of(ctx, PREFIX[o1.letter], a, o1, o2, s, "bin")
            got = read_bin(path, case["reim"], mesh, fn)
            x, mass = binned(case, ref, a, o1, o2, comps, D, mesh)
            tol = 1e-8 * max(1.0, mass)
            d = bins_differ(got, x, case["reim"], tol)
            size = max(size, np.abs(x).max())
            if d <= tol:
                continue
            if a.startswith("CFS"):
                y, _ = binned(case, ref, a, o1, o2, comps, D, mesh, swapped=True)
                if bins_differ(got, y, case["reim"], tol) <= tol:
                    known = known or "CFS-nonlast: %s: iterations before the last one enter with exchanged parts or the wrong sign (differs by %.3g)" % (fn, d)
                    continue
            i, k = np.unravel_index(np.abs(got - x).argmax(), got.shape)
            raise Violation("%s: weight at %s%.6g is %r instead of %r (largest deviation %.3g, mesh of %d bins)"
                            % (fn, "-" if i else "", mesh.e[k], got[i, k], x[i, k], d, mesh.n))
    if known:
        raise Violation(known)
    return labels(case, ref, o1, size)


def known_bins(case, msg):
    return "C02-CFS" if msg.startswith("CFS-nonlast:") else None


# --------------------------------------------------------------------------------------- expectation values and transport integrals
def run_static(case, ctx):
    case, cl, ops, p, ref, o1, o2, suff, pairs, text = setup(case)
    algs, T = case["algs"], case["T"]
    f = fermionic(o1)
    temps = [a for a in algs if a in (("GT", "I1T", "I2T") if o1.letter == "d" else ("CHIT",) if o1.letter in "sg" else ())]
    for a in temps:
        p[{"GT": "specgt", "I1T": "speci1t", "I2T": "speci2t", "CHIT": "specchit"}[a]] = pairs
    p["gtp"], p["chitp"] = case["gtp"], case["gtp"]
    n = min(case["fdmexpvn"], G.steps(case) - 1)
    if "customfdm" in algs:
        p["fdmexpv"], p["fdmexpvn"] = True, n + G.n0(case)
    if "FDMtd" in algs:
        p["fdm"] = True
    must_ok(G.run(ctx, case, p, text), "nrg")
    rd = lambda x: open(os.path.join(ctx["wd"], x)).read()
    sc = lambda N: G.sc(case, N + 1)
    rows = nrgrun.td(rd("custom"))
    shells = ([ref.initial] if case["calc0"] else []) + ref.shells
    sing = [o for o in ops if o.letter in "sg"]
    expect(len(rows) == len(shells), "custom has %d rows instead of %d" % (len(rows), len(shells)))
    size = 0.0
    for sh, row in zip(shells, rows):
        t = sc(sh.N) / case["betabar"]
        expect(abs(row["T"] - t) <= 1e-10, "custom: T = %r instead of %r" % (row["T"], t))
        k = sh.kept if case["strategy"] == "kept" else np.ones(len(sh.E), bool)
        e = sh.E[k] - sh.E.min()
        w = np.exp(-e / t)
        for o in sing:
            v = (w * np.diag(sh.ops[o.keys()[0]])[k]).sum().real / w.sum()
            expect(o.name in row, "custom has no column %s" % o.name)
            expect(abs(row[o.name] - v) <= 1e-8 * max(1, abs(v)), "custom N=%d: <%s> = %r instead of %r" % (sh.N, o.name, row[o.name], v))
            size = max(size, abs(v))
    D = dens(case, ref) if any(a in algs for a in ("customfdm", "FDMtd")) else None
    if "customfdm" in algs:
        rows = nrgrun.td(rd("customfdm"))
        expect(len(rows) == 1, "customfdm has %d rows" % len(rows))
        expect(abs(rows[0]["T"] - T) <= 1e-12, "customfdm: T")
        for o in sing:
            if n == G.steps(case) - 1:
                s = ref.shells[n]
                v = (D.wnf[n] * D.bz[n] * np.diag(s.ops[o.keys()[0]])).sum().real
            else:
                v = np.real(D.expv(o.keys()[0], n))
            expect(abs(rows[0][o.name] - v) <= 1e-8 * max(1, abs(v)), "customfdm: <%s> = %r instead of %r (iteration %d)" % (o.name, rows[0][o.name], v, n))
    if D is not None:
        row = nrgrun.td(rd("tdfdm"))[0]
        for c, v in D.td().items():
            expect(abs(row[c] - v) <= 1e-7 * max(1, abs(v)), "tdfdm: %s = %r instead of %r" % (c, row[c], v))
    for a in temps:
        for s, comps in suff.items():
            pre = {"GT": "gt", "I1T": "i1t", "I2T": "i2t", "CHIT": "chit"}[a]
            fn, path = path_of(ctx, pre, a, o1, o2, s, "dat")
            x = np.array(table(open(path).read()))
            exp = []
            for sh in shells:
                P = {"gtp": case["gtp"], "chitp": case["gtp"], "scale": sc(sh.N)}
                exp.append((case["gtp"] * sc(sh.N), sum(LM.pieces(a, ref, sh.N, o1.keys()[k], o2.keys()[k], f, T, None, P) for k in comps)))
            exp.sort(key=lambda y: y[0])
            # an iteration in which the operators connect no subspaces contributes no row
            exp = [y for y in exp if abs(y[1]) > 1e-12 or any(abs(r[0] - y[0]) <= 1e-10 for r in x)]
            expect(len(x) == len(exp), "%s has %d rows instead of %d" % (fn, len(x), len(exp)))
            for r, (t, v) in zip(x, exp):
                expect(abs(r[0] - t) <= 1e-10, "%s: T = %r instead of %r" % (fn, r[0], t))
                expect(abs(r[1] - np.real(v)) <= 1e-8 * max(1, abs(v) * 10), "%s: %r instead of %r at T=%g" % (fn, r[1], v, t))
                size = max(size, abs(v))
    lab = [case["cfg"], "kind:" + o1.letter] + ["alg:" + a for a in temps] + [a for a in algs if a in ("customfdm", "FDMtd")]
    if size > 1e-6 and any(not s.kept.all() for s in ref.shells[:-1]):
        lab.append("nontrivial")
    return lab


SPLIT = 5
LAWS = [Law("matsubara", mcases(), run_mats, 260, 6000), Law("bins", rcases(), run_bins, 260, 6000, known=known_bins),
        Law("static", scases(), run_static, 220, 4000)]

if __name__ == "__main__":
    main(sys.modules[__name__])
