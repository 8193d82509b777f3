"""Generated operators of a cluster (singlets, doublets, triplets, orbital triplets, quadruplets, global charges) as irreducible tensors:
reduced matrix elements for the data file, and the operators themselves for the reference solution."""
import numpy as np
import scipy.sparse as sp

from .fock import Modes, iso_sign
from .nrgref import site_modes

NODOUBLET = ("PP", "QSC3", "SPSU2C3", "QSZLR")
TRIPLET = ("ISO", "ISO2", "ISOLR", "ISOSZ", "ISOSZLR", "QS", "QSLR", "QST", "QSTZ", "QSZ", "QSZTZ", "SPSU2", "SPSU2LR", "SPSU2T", "SPU1", "SPU1LR")
COMPOSITE = ("QST", "QSTZ", "QSZTZ", "QJ", "SPSU2T", "QSC3", "SPSU2C3")
# global operators and the numbers of channels for which the program knows the contribution of the chain
GLOBALS = {"DBLISOSZ": {"SZtot": "2"}, "DBLQSZ": {"SZtot": "2"}, "DBLSU2": {"SXtot": "2", "SYtot": "2", "SZtot": "2"}, "ISOSZ": {"SZtot": "12"},
           "NONE": {n: "12" for n in ("Qtot", "SXtot", "SYtot", "SZtot", "Iztot", "Ixtot", "Iytot")},
           "P": {n: "12" for n in ("Qtot", "SXtot", "SYtot", "SZtot", "Iztot", "Ixtot", "Iytot")},
           "PP": {n: "2" for n in ("Qtot", "SZtot", "Iztot")},
           "QS": {"Q1": "2", "Q2": "2", "Qdiff": "2", "Qtot": "2"}, "QSZ": {"Q1d": "1", "Q1u": "1", "SZtot": "123"},
           "SL": {"N1": "3", "N2": "3", "N3": "3", "Qdiff": "2", "Qtot": "2"}, "SL3": {"N1": "3", "N2": "3", "N3": "3"},
           "SPSU2": {"Ixtot": "12", "Iztot": "12", "Q1": "2", "Q2": "2", "Qdiff": "2", "Qtot": "12"},
           "SPU1": {"Ixtot": "12", "Iztot": "12", "Q1": "2", "Q2": "2", "Qdiff": "2", "Qtot": "12"},
           "SPU1LR": {"Iztot": "12", "Qtot": "12"},
           "SU2": {"SXtot": "12", "SYtot": "12", "SZtot": "12"}, "U1": {"SXtot": "123", "SYtot": "123", "SZtot": "123"}}


class Op:
    """letter, name, components [(top operator, ranks)], irreducible matrix elements"""

    def __init__(self, cl, letter, name, comps, fermionic):
        self.letter, self.name, self.comps, self.fermionic = letter, name, comps, fermionic
        self.me = cl.reduced(comps)

    def keys(self):
        return ["%s%s#%d" % (self.letter, self.name, k) for k in range(len(self.comps))]

    def field(self, k):
        """change of 2Sz of component k"""


def scalar(cl, rng, herm=True, odd=None):
    """random scalar operator of the symmetry group (odd: name of the parity label it changes)"""
    mp = cl.mp
    dim = cl.modes.dim
    S = np.zeros((dim, dim), dtype=complex if cl.cplx else float)
    for inv in mp.invars:
        W2 = mp.hw[inv]
        if odd is None:
            pairs = [(W, W) for _, W in W2]
            out = inv
        else:
            k = [i for i, (_, n) in enumerate(cl.sym.invar) if n == odd][0]
            out = inv[:k] + (-inv[k],) + inv[k + 1:]
            if out not in mp.hw:
                continue
            a, b = dict(mp.hw[out]), dict(W2)
            pairs = [(a[F], b[F]) for F in b if F in a]
        for L, R in pairs:
            B = rng.normal(size=(L.shape[1], R.shape[1]))
            if cl.cplx:
                B = B + 1j * rng.normal(size=B.shape)
            B = B / max(1.0, np.sqrt(B.shape[0]))
            if herm and odd is None:
                B = (B + B.conj().T) / 2
            ml, mr = mp.members(out, L), mp.members(inv, R)
            for (_, l), (_, r) in zip(ml, mr):
                S += (l @ B) @ r.T
    if herm and odd is not None:
        S = (S + S.conj().T) / 2
    S[np.abs(S) < 1e-14] = 0
    return sp.csr_matrix(S)


def orbitals(cl):
    r = []
    for l in cl.modes.labels:
        if (l[0], l[1]) not in r:
            r.append((l[0], l[1]))
    return r


def _group(cl, els, rng):
    """sum the elementary tensors with equal ranks and equal change of the other labels, with random coefficients"""
    g = {}
    for op, ranks in els:
        k = (tuple(sorted(ranks.items())), tuple(sorted((cl._shift(op) or {}).items())))
        g[k] = g.get(k, 0) + rng.normal() * op
    return [(g[k], dict(k[0])) for k in sorted(g)], [dict(k[1]) for k in sorted(g)]


def parity_even(cl, comps, shifts):
    par = [n for n, _ in cl.sym.par if n == "P"]
    r = [c for c, s in zip(comps, shifts) if all(s.get(n, 1) == 1 for n in par)]
    return r


def doublet(cl, rng, which=0):
    """which: index of the channel operator in the types with composite sites"""
    sym, m = cl.sym, cl.modes
    ns = sorted({n for n, _ in orbitals(cl)})
    els = []
    fl = sym.fops(cl.nch)
    for n in ns:
        chs = {c for k, c in orbitals(cl) if k == n}
        for ci, per in enumerate(fl):
            if sym.name == "QJ" and ci != which:
                continue
            for comps in per:
                for x, k, (ch, s), ranks in comps:
                    if ch not in chs:
                        continue
                    if sym.name == "SL3" and ch != 0:          # operators of the first channel
                        continue
                    if sym.name in COMPOSITE and len(chs) < cl.nch:
                        continue
                    lab = (n, ch, s)
                    els.append((x * (m.cd(lab) if k == "cd" else m.c(lab)), ranks))
    if sym.name in ("DBLSU2", "DBLISOSZ"):      # doublets of the first isospin
        els = [e for e in els if ("I1" if which == 0 else "I2") in e[1]]
    comps, shifts = _group(cl, els, rng)
    return parity_even(cl, comps, shifts)


def splus(m, n, chs):
    return sum(m.cd((n, ch, "u")) @ m.c((n, ch, "d")) for ch in chs)


def triplet(cl, rng):
    sym, m = cl.sym, cl.modes
    names = [n for n, _ in sym.su2]
    els = []
    orb = orbitals(cl)
    if sym.name in COMPOSITE:
        sets = [(n, range(cl.nch)) for n in sorted({n for n, _ in orb}) if len([1 for k, _ in orb if k == n]) == cl.nch]
    else:
        sets = [(n, [ch]) for n, ch in orb]
    for n, chs in sets:
        up = splus(m, n, chs)
        if "Sz" in names:
            els.append((-up / np.sqrt(2), {"Sz": 2}))
        else:
            els.append((-up / np.sqrt(2), {}))
            els.append((up.T.tocsr() / np.sqrt(2), {}))
            els.append((sum(sp.diags(0.5 * (m.occ((n, ch, "u")) - m.occ((n, ch, "d")))) for ch in chs).tocsr(), {}))
    comps, shifts = _group(cl, els, rng)
    return parity_even(cl, comps, shifts)


def orbtriplet(cl, rng):
    m = cl.modes
    els = []
    jp = dict(cl.sym.su2).get("T")
    for n in sorted({n for n, _ in orbitals(cl)}):
        sub = [l for l in m.labels if l[0] == n]
        if len(sub) < 6:
            continue
        t = 0
        for s in "ud":
            for ch in (0, 1):
                t = t + np.sqrt(2) * (m.cd((n, ch, s)) @ m.c((n, ch + 1, s)))
        els.append((-t / np.sqrt(2), {"T": 2}))
    comps, shifts = _group(cl, els, rng)
    return comps


def dressed(cl, rng, comps, dress):
    if not dress:
        return comps
    S1, S2 = scalar(cl, rng, False), scalar(cl, rng, False)
    return [((S1 @ X @ S2), ranks) for X, ranks in comps]


def local_global(name, modes):
    """contribution of a set of modes to the global operator"""
    d = modes.dim
    occ = modes.occ

    def num(sel, off=True):
        v = np.zeros(d)
        for l in modes.labels:
            if sel(l):
                v += occ(l) - (0 if not off else 0.5 if l[2] != "x" else 1 if l[0] > 0 else 0)
        return v
    if name in ("N1", "N2", "N3"):
        return sp.diags(num(lambda l: l[1] == int(name[1]) - 1)).tocsr()
    if name in ("Q1u", "Q1d"):
        return sp.diags(num(lambda l: l[1] == 0 and l[2] == name[2])).tocsr()
    if name == "Qtot":
        return sp.diags(num(lambda l: True)).tocsr()
    if name in ("Q1", "Q2"):        # number of electrons (the total charge, in contrast, is measured from half filling)
        return sp.diags(num(lambda l: l[1] == int(name[1]) - 1, False)).tocsr()
    if name == "Qdiff":
        # sign of the program's tables (charge of the second channel minus that of the first)
        return sp.diags(num(lambda l: l[1] == 1) - num(lambda l: l[1] == 0)).tocsr()
    if name == "SZtot":
        v = np.zeros(d)
        for l in modes.labels:
            v += 0.5 * occ(l) * (1 if l[2] == "u" else -1)
        return sp.diags(v).tocsr()
    orb = sorted({(l[0], l[1]) for l in modes.labels})
    up = sum(modes.cd((n, c, "u")) @ modes.c((n, c, "d")) for n, c in orb)
    if name == "SXtot":
        return (0.5 * (up + up.T)).tocsr()
    if name == "SYtot":
        return (-0.5j * (up - up.T)).tocsr()
    if name == "Iztot":
        return sp.diags(0.5 * num(lambda l: True)).tocsr()
    ip = sum(iso_sign((n, c, "u")) * (modes.cd((n, c, "u")) @ modes.cd((n, c, "d"))) for n, c in orb)
    if name == "Ixtot":
        return (0.5 * (ip + ip.T)).tocsr()
    if name == "Iytot":
        return (-0.5j * (ip - ip.T)).tocsr()
    raise KeyError(name)


def globals_of(symname, nch, cplx):
    return [n for n, c in GLOBALS.get(symname, {}).items() if str(nch) in c and (n not in ("SYtot", "Iytot") or cplx)]


def make(cl, spec):
    """spec: list of {"k": letter, "name", "seed", "dress"} -> [Op]"""
    out = []
    for s in spec:
        rng = np.random.default_rng(s["seed"])
        k, name = s["k"], s["name"]
        if k == "s":
            out.append(Op(cl, "s", name, [(scalar(cl, rng, s.get("herm", True)), {})], False))
        elif k == "p":
            out.append(Op(cl, "p", name, [(scalar(cl, rng, s.get("herm", True), odd="P"), {})], False))
        elif k == "g":
            out.append(Op(cl, "g", name, [(local_global(name, cl.modes), {})], False))
        elif k == "d":
            out.append(Op(cl, "d", name, dressed(cl, rng, doublet(cl, rng), s["dress"]), True))
        elif k == "q":
            out.append(Op(cl, "q", name, dressed(cl, rng, doublet(cl, rng, 1), s["dress"]), True))
        elif k == "t":
            out.append(Op(cl, "t", name, dressed(cl, rng, triplet(cl, rng), s["dress"]), False))
        elif k == "o":
            out.append(Op(cl, "o", name, dressed(cl, rng, orbtriplet(cl, rng), s["dress"]), False))
    return out


def kinds(symname):
    r = ["s", "s"]
    if symname not in NODOUBLET:
        r += ["d", "d", "d"]
    if symname in TRIPLET:
        r += ["t", "t"]
    if symname == "QST":
        r += ["o"]
    if symname == "QJ":
        r += ["q", "q"]
    if symname.endswith("LR"):
        r += ["p"]
    if symname in GLOBALS:
        r += ["g"]
    return r
