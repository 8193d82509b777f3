"""Generated problems for the nrg program: symmetry type, cluster, Wilson chain, truncation and measurement parameters."""
import numpy as np
from hypothesis import strategies as st

from . import nrgrun
from .fock import SYMS
from .nrgdata import Cluster, scale
from .star import lanczos


class Cfg:
    """What the symmetry type supports (see DESIGN.md, "conventions of the core")"""

    def __init__(self, sym, nch, imps, nmax, keep, w=3, pol=False, p22=False, sc="no", kap=True, rung=False, uniform=False, zeta=True,
                 cplx=False, quick=True):
        self.sym, self.nch, self.imps, self.nmax, self.keep, self.w = sym, nch, imps, nmax, keep, w
        self.pol, self.p22, self.sc, self.kap, self.rung, self.uniform, self.zeta = pol, p22, sc, kap, rung, uniform, zeta
        self.cplx, self.quick = cplx, quick

    @property
    def name(self):
        return "%s/%d" % (self.sym, self.nch)


I1, I2, I3 = [[], [0], [0, 0]], [[], [0], [1]], [[]]
CFGS = [
    Cfg("QS", 1, I1, (2, 6), (5, 40), w=6, cplx=True), Cfg("QS", 2, I2, (2, 3), (8, 50), w=3, cplx=True, rung=True),
    Cfg("QS", 3, I3, (1, 1), (6, 20), w=1),
    Cfg("QSZ", 1, I1, (2, 6), (5, 60), w=6, pol=True, cplx=True), Cfg("QSZ", 2, I2, (2, 3), (8, 60), w=3, pol=True, rung=True),
    Cfg("U1", 1, I1, (2, 5), (5, 60), w=3, pol=True, p22=True, cplx=True), Cfg("U1", 2, I3, (2, 2), (6, 16), w=1, pol=True),
    Cfg("SPSU2", 1, I1, (2, 5), (5, 40), w=4, sc="must", cplx=True), Cfg("SPSU2", 2, I3, (2, 3), (8, 20), w=2, sc="must"),
    Cfg("SPU1", 1, I1, (2, 5), (5, 60), w=3, pol=True, sc="must", cplx=True), Cfg("SPU1", 2, I3, (2, 2), (6, 20), w=1, sc="must"),
    Cfg("NONE", 1, [[], [0]], (2, 4), (5, 24), w=2, pol=True, sc="must", kap=False), Cfg("NONE", 2, I3, (1, 1), (5, 40), w=1, sc="must", kap=False),
    Cfg("P", 1, I1, (2, 4), (5, 40), w=2, pol=True, sc="must", kap=False), Cfg("P", 2, I3, (1, 2), (5, 12), w=1, sc="must", kap=False),
    Cfg("PP", 2, I3, (1, 2), (5, 40), w=1, sc="must", kap=False),
    Cfg("ISO", 1, I1, (2, 6), (4, 30), w=4, zeta=False, cplx=True), Cfg("ISO", 2, I2, (2, 4), (6, 40), w=2, zeta=False),
    Cfg("ISO", 3, I3, (1, 2), (4, 12), w=1, zeta=False),
    Cfg("ISO2", 1, I1, (2, 5), (4, 30), w=1, zeta=False), Cfg("ISO2", 2, I2, (2, 4), (6, 40), w=2, zeta=False),
    Cfg("ISOSZ", 1, I1, (2, 6), (5, 40), w=3, zeta=False), Cfg("ISOSZ", 2, I2, (2, 3), (6, 40), w=2, zeta=False),
    Cfg("SU2", 1, I1, (2, 6), (5, 40), w=3, zeta=False, cplx=True), Cfg("SU2", 2, I2, (2, 3), (6, 20), w=2, zeta=False),
    Cfg("DBLSU2", 2, I2, (2, 3), (6, 40), w=2, zeta=False, cplx=True), Cfg("DBLISOSZ", 2, I2, (2, 3), (6, 40), w=2, zeta=False),
    Cfg("DBLQSZ", 2, I2, (2, 3), (6, 50), w=2),
    Cfg("SL", 1, I1, (2, 7), (4, 40), w=3, cplx=True), Cfg("SL", 2, I2, (2, 5), (6, 50), w=2), Cfg("SL", 3, I3, (2, 3), (6, 40), w=1),
    Cfg("SL3", 3, I3, (2, 3), (6, 40), w=2),
    Cfg("QSLR", 2, I2, (2, 3), (8, 50), w=3, uniform=True, cplx=True), Cfg("QSZLR", 2, I2, (2, 3), (8, 50), w=2, uniform=True),
    Cfg("ISOLR", 2, I2, (2, 3), (6, 40), w=2, uniform=True, zeta=False),
    Cfg("ISOSZLR", 2, I2, (2, 3), (6, 40), w=2, uniform=True, zeta=False),
    Cfg("SPSU2LR", 2, I2, (2, 3), (8, 40), w=2, uniform=True, sc="must"),
    Cfg("SPU1LR", 2, I2, (2, 2), (6, 40), w=2, uniform=True, sc="must"), Cfg("SPU1LR", 1, I1, (2, 4), (6, 40), w=1, uniform=True, sc="must"),
    Cfg("QST", 3, I3, (1, 2), (4, 12), w=2, uniform=True, cplx=True), Cfg("QSTZ", 3, I3, (1, 2), (4, 16), w=1, uniform=True),
    Cfg("QSZTZ", 3, I3, (1, 1), (4, 20), w=1, uniform=True), Cfg("QJ", 3, I3, (1, 3), (4, 12), w=2, uniform=True, cplx=True),
    Cfg("SPSU2T", 3, I3, (1, 2), (4, 10), w=1, uniform=True, sc="zero"),
    Cfg("QSC3", 3, I3, (1, 2), (4, 14), w=1, uniform=True), Cfg("SPSU2C3", 3, I3, (1, 1), (4, 8), w=1, uniform=True, sc="must", kap=False),
]
BYNAME = {c.name: c for c in CFGS}


@st.composite
def problems(draw, cfgs=None, lambdas=(2.0, 2.0, 1.5, 3.0), keepkinds=("keep", "keep", "keepenergy", "keepall", "loose"), lo=None):
    cfgs = cfgs or CFGS
    names = [c.name for c in cfgs for _ in range(c.w)]
    c = BYNAME[draw(st.sampled_from(names))]
    case = {"cfg": c.name, "seed": draw(st.integers(0, 2 ** 31 - 1))}
    case["imp"] = draw(st.sampled_from(c.imps[::-1]))
    large = c.nch == 3 and c.sym not in ("SL", "SL3") or c.name in ("NONE/2", "P/2", "PP/2")
    case["trim"] = draw(st.sampled_from([None, 12, 6, 20] if large else [None, None, None, 8, 20]))
    case["Nmax"] = draw(st.integers(c.nmax[0], c.nmax[1] + (1 if large and case["trim"] else 0)))
    case["Lambda"] = draw(st.sampled_from(lambdas))
    case["disc"] = draw(st.sampled_from(["Z", "Z", "Y", "C"]))
    case["z"] = draw(st.sampled_from([1.0, 1.0, 0.5, 0.8]))
    case["betabar"] = draw(st.sampled_from([1.0, 0.5, 0.75, 2.0]))
    case["degen"] = draw(st.sampled_from([False, False, False, True]))
    opts = ["plain"] + ["pol"] * c.pol + ["p22"] * c.p22
    case["spin"] = draw(st.sampled_from(opts[::-1]))
    case["sc"] = c.sc != "no" and (c.sc != "may" or draw(st.booleans()))
    case["rung"] = c.rung and case["spin"] == "plain" and draw(st.booleans())
    case["cplx"] = c.cplx and draw(st.sampled_from([False, False, True]))
    case["star"] = case["spin"] != "p22" and draw(st.sampled_from([None] * 4 + [0, 1, 5, 12]))
    case["zeros"] = draw(st.sampled_from([0.0, 0.0, 0.2]))
    case["eoff"] = draw(st.sampled_from([0.0] * 4 + [25.0, -700.0]))   # a constant in the Hamiltonian
    case["n0"] = draw(st.sampled_from([0] * 6 + [1, 2, 2, 3]))
    if case["n0"] % 2 and odd(c):
        case["n0"] += 1
    k = case["trunc"] = draw(st.sampled_from(keepkinds))
    if k == "loose":
        case["keep"] = 100000
    else:
        case["keep"] = draw(st.integers(*c.keep))
    if k == "keepenergy":
        case["keepenergy"] = draw(st.sampled_from([0.5, 1.0, 2.0, 3.0, 5.0])) + draw(st.integers(0, 99)) / 137.0
        case["keepmin"] = draw(st.integers(0, min(case["keep"], 12)))
    if k == "keepall":
        case["keepall"] = draw(st.sampled_from(["even", "odd", "0", "1", "0,2"]))
    case["safeguard"] = draw(st.sampled_from([1e-5, 1e-5, 1e-3, 0.05, 0.0]))
    return case


def odd(c):
    """the symmetry distinguishes the two sublattices of the chain"""
    return "ISO" in c.sym or c.sym in ("SU2", "DBLSU2") or c.name == "P/2"


def n0(case):
    """index of the last chain site in the data file"""
    return case.get("n0", 0) if not ex(case).get("sub") else 0


def top(case):
    """index of the last site of the chain"""
    return n0(case) + case["Nmax"]


def cfg(case):
    return BYNAME[case["cfg"]]


def coefs(case, c=None):
    c = c or cfg(case)
    rng = np.random.default_rng(case["seed"] + 1)
    nch, Nmax = c.nch, top(case)
    f = {"plain": 1, "pol": 2, "p22": 4}[case["spin"]]
    n = nch * f
    sc = [scale(N, case["Lambda"], case["z"], case["disc"]) for N in range(Nmax + 2)]
    zp = case["zeros"]

    def t(amp, base=0.0):
        x = rng.normal(size=Nmax + 1) * amp
        if base:
            x = np.sign(x) * (base + np.abs(x))
        z = rng.random(Nmax + 1) < zp
        return np.where(z, 0.0, x) * np.array(sc[1:Nmax + 2])

    def zt(amp):
        return t(amp) * case["Lambda"] ** 0.5   # the site that is added carries the index N+1

    def tabs(g, *a):
        r = [g(*a) for _ in range(n)]
        return [r[0]] * n if c.uniform else r
    d = {"xi": tabs(t, 0.4, 0.3), "zeta": tabs(zt, 0.4)}
    if not c.zeta:
        d["zeta"] = [x * 0 for x in d["zeta"]]
    if case.get("star") not in (None, False):
        # chains are given by their star: levels ep, -em with couplings u0p, u0m (the program tridiagonalises)
        D = ex(case).get("bandrescale", 1.0)
        m = (Nmax + 1) // 2 + 2 + case["star"]
        d["star"] = {k: [] for k in ("ep", "em", "u0p", "u0m")}
        d["xi"], d["zeta"] = [], []
        for i in range(n):
            if i == 0 or not c.uniform:
                def lev():
                    return 0.5 * (1 + 1 / case["Lambda"]) * float(case["Lambda"]) ** -np.arange(m) * rng.uniform(0.9, 1.1, m)

                def cpl():
                    return float(case["Lambda"]) ** (-0.5 * np.arange(m)) * rng.uniform(0.5, 1.5, m)
                ep, up = lev(), cpl()
                em, um = (lev(), cpl()) if c.zeta else (ep, up)
                xi, ze = lanczos(list(ep) + list(-em), list(up) + list(um), Nmax)
            d["xi"].append(np.array(xi))
            d["zeta"].append(np.array(ze))
            for k, x in (("ep", ep / D), ("em", em / D), ("u0p", up), ("u0m", um)):
                d["star"][k].append(x)
    if case["spin"] == "p22":
        d["zeta"][2 * nch:3 * nch] = d["zeta"][3 * nch:4 * nch]
        for k in range(2 * nch, 4 * nch):
            d["xi"][k] = d["xi"][k] * 0.5
    if case["sc"]:
        d["delta"], d["kappa"] = tabs(zt, 0.4), tabs(t, 0.4)
        if c.sc == "zero" or case["seed"] % 7 == 0:
            d["delta"] = [x * 0 for x in d["delta"]]
        if c.sc == "zero" or not c.kap:
            d["kappa"] = [x * 0 for x in d["kappa"]]
    if case["rung"]:
        d["xiR"], d["zetaR"] = tabs(t, 0.4), tabs(zt, 0.4)
    return d


def cluster(case):
    c = cfg(case)
    cl = Cluster(c.sym, c.nch, tuple(case["imp"]), case["seed"], complex_=case["cplx"], degen=case["degen"], spread=1.0 + (case["seed"] % 3),
                 eoff=case.get("eoff", 0.0))
    if case.get("trim"):
        cl.trim(case["trim"])
    return cl


def params(case, **kw):
    p = dict(symtype=cfg(case).sym, Nmax=top(case), Ninit=n0(case), Lambda=case["Lambda"], keep=case["keep"], betabar=case["betabar"],
             discretization=case["disc"], z=case["z"], safeguard=case["safeguard"], T=0.1,
             width_td=26, prec_td=15, width_custom=26, prec_custom=15, prec_xy=15)
    for k in ("keepenergy", "keepmin", "keepall"):
        if k in case:
            p[k] = case[k]
    if case["spin"] == "pol":
        p["polarized"] = True
    if case["spin"] == "p22":
        p["pol2x2"] = True
    if case["rung"]:
        p["rungs"] = True
    p.update(kw)
    e = ex(case)
    p.update(e.get("par", {}))
    if p.get("diag") == "partial":
        p["diag"] = "zheevr" if case["cplx"] or SYMS[cfg(case).sym].complex_only else "dsyevr"
    for k, n in (("absolute", "absolute"), ("sub", "substeps"), ("bandrescale", "bandrescale")):
        if e.get(k):
            p[n] = e[k]
    if case.get("star") not in (None, False):
        p["tri"], p["preccpp"] = "cpp", 500 * (1 + case["seed"] % 6)
    if e.get("raw"):
        p["data_has_rescaled_energies"] = False
    return p


def ex(case):
    """execution options: "sub" (interleaved diagonalisation), "np" (MPI processes), "absolute", "raw" (data file in units of the band), "par" """
    return case.get("exec") or {}


def steps(case):
    return case["Nmax"] * (cfg(case).nch if ex(case).get("sub") else 1)


def sc(case, N):
    """energy scale of H_N"""
    N += n0(case)
    s = scale(0, case["Lambda"], case["z"], case["disc"], ex(case).get("bandrescale", 1.0))
    r = cfg(case).nch if ex(case).get("sub") else 1
    # with interleaved chains the first of the steps lies 1/r - 1 half-steps lower
    return s * case["Lambda"] ** (-N / (2 * r))


def scale0(case):
    """units of the energies in the data file"""
    return 1.0 if ex(case).get("absolute") or ex(case).get("raw") else sc(case, 0)


def ref(case, cl, co, p, **kw):
    from .nrgref import RefNRG
    if "maxdim" not in kw:       # keeps the run of the program (compiled without optimisation) within a few seconds
        kw.setdefault("maxblock", 200)
        kw["maxdim"] = 4200 if cl.sym.su2 or cfg(case).nch == 3 and cl.sym.spins == "ud" else 1100
    co = {k: [t[n0(case):] for t in v] for k, v in co.items() if k != "star"}
    return RefNRG(cl, co, case["Nmax"], p, polarized=case["spin"] == "pol", pol2x2=case["spin"] == "p22", Lambda=case["Lambda"],
                  sc=lambda N: sc(case, N), substeps=bool(ex(case).get("sub")), n0=n0(case), **kw)


def run(ctx, case, p, data):
    e = ex(case)
    return nrgrun.run_nrg(ctx["nrg"], ctx["wd"], p, data, np_=e.get("np", 1))
