"""Fock-space algebra for the reference side of the NRG checks: Jordan-Wigner operators, symmetry-type table, Clebsch-Gordan
coefficients, multiplet bases and irreducible tensor operators of a small cluster.  Nothing here uses the code under test."""
import functools
import math

import numpy as np
import scipy.sparse as sp


# ---------------------------------------------------------------- Clebsch-Gordan
@functools.lru_cache(None)
def cg2(j1, m1, j2, m2, j, m):
    """<j1 m1; j2 m2 | j m>; all arguments are twice the quantum numbers (Racah formula)."""
    if m1 + m2 != m or not (abs(j1 - j2) <= j <= j1 + j2) or (j1 + j2 + j) % 2:
        return 0.0
    if abs(m1) > j1 or abs(m2) > j2 or abs(m) > j or (j1 + m1) % 2 or (j2 + m2) % 2 or (j + m) % 2:
        return 0.0
    f = lambda x: math.factorial(x // 2)
    pre = math.sqrt((j + 1) * f(j + j1 - j2) * f(j - j1 + j2) * f(j1 + j2 - j) / f(j1 + j2 + j + 2))
    pre *= math.sqrt(f(j + m) * f(j - m) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2))
    s = 0.0
    for k in range(0, (j1 + j2 + j) // 2 + 1):
        d = [j1 + j2 - j - 2 * k, j1 - m1 - 2 * k, j2 + m2 - 2 * k, j - j2 + m1 + 2 * k, j - j1 - m2 + 2 * k]
        if min(d) < 0:
            continue
        p = math.factorial(k)
        for x in d:
            p *= f(x)
        s += (-1) ** k / p
    return pre * s


# ---------------------------------------------------------------- modes and operators
class Modes:
    """Fermionic modes with labels; creators are real sparse matrices, mode 0 is the most significant qubit."""

    def __init__(self, labels):
        self.labels = list(labels)
        self.index = {l: i for i, l in enumerate(self.labels)}
        self.L = len(self.labels)
        self.dim = 1 << self.L
        self._c = {}

    def cd(self, lab):
        i = self.index[lab]
        if i not in self._c:
            n = self.dim
            bit = 1 << (self.L - 1 - i)
            st = np.arange(n)
            src = st[(st & bit) == 0]
            higher = src >> (self.L - i)
            par = np.zeros_like(src)
            h = higher.copy()
            while h.any():
                par ^= h & 1
                h >>= 1
            self._c[i] = sp.csr_matrix((1.0 - 2.0 * par, (src | bit, src)), shape=(n, n))
        return self._c[i]

    def c(self, lab):
        return self.cd(lab).T.tocsr()

    def occ(self, lab):
        i = self.index[lab]
        return ((np.arange(self.dim) >> (self.L - 1 - i)) & 1).astype(float)


# ---------------------------------------------------------------- symmetry types
class Su2:
    """One SU(2) algebra: pairs(n) lists (coefficient, creator label spec, creator/annihilator spec) of J+ on the orbital set."""

    def __init__(self, name, jplus, jz):
        self.name, self.jplus, self.jz = name, jplus, jz   # jplus(modes, orbs) -> sparse; jz(label) -> 2*weight/particle, offset


class FOp:
    """One hopping operator of the chain: top component and its ranks (2j per SU(2)), see Sym.fops"""

    def __init__(self, terms, ranks):
        self.terms, self.ranks = terms, ranks


class Sym:
    """A symmetry type of NRG Ljubljana.

    Orbital labels are (n, ch, s): n = -1.. for impurity orbitals, n >= 0 for chain sites.
    cartan: list of (name, weight(label), offset(label)) ; the eigenvalue of the label is sum(occ*weight) - sum(offset), integers
            (twice the quantum number for SU(2) projections).
    mult:   list of (name, member(label)): (-1)^(number of particles in the member modes).
    su2:    list of (name, raising operator builder(modes)), its projection being cartan entry of the same name.
    invar:  list of (kind, name), kind in 'add', 'add1' (2S+1 from highest weight), 'half' (orbital quantum number = weight/2),
            'par', 'mod3', 'dummy'
    """

    def __init__(self, name, channels, spins, cartan, invar, su2=(), par=(), mod3=(), fops=None, field=False, perch=1,
                 complex_only=False, ops="sd", note=""):
        self.name, self.channels, self.spins = name, channels, spins
        self.cartan, self.invar, self.su2, self.par, self.mod3 = cartan, invar, list(su2), list(par), list(mod3)
        self.fops, self.field, self.perch, self.complex_only, self.ops = fops, field, perch, complex_only, ops

    def cartan_values(self, modes):
        out = {}
        for name, w, off in self.cartan:
            v = np.zeros(modes.dim)
            for l in modes.labels:
                v += modes.occ(l) * w(l) - off(l)
            out[name] = np.rint(v).astype(int)
        for name, member in self.par:
            v = np.zeros(modes.dim)
            for l in modes.labels:
                if member(l):
                    v += modes.occ(l)
            out[name] = np.where(np.rint(v).astype(int) % 2 == 0, 1, -1)
        for name, w in self.mod3:
            v = np.zeros(modes.dim)
            for l in modes.labels:
                v += modes.occ(l) * w(l)
            out[name] = np.rint(v).astype(int) % 3
        # fermion parity is always conserved and always needed to embed operators
        v = sum(modes.occ(l) for l in modes.labels)
        out["_F"] = np.rint(v).astype(int) % 2
        return out

    def raising(self, modes):
        return {name: jp(modes) for name, jp in self.su2}

    def invar_of(self, lab):
        """lab: dict of label values of a highest-weight state -> tuple of ints as printed in data files"""
        r = []
        for kind, name in self.invar:
            if kind == "add":
                r.append(int(lab[name]))
            elif kind == "add1":
                r.append(int(lab[name]) + 1)
            elif kind == "half":
                r.append(int(lab[name]) // 2)
            elif kind in ("par", "mod3"):
                r.append(int(lab[name]))
            elif kind == "dummy":
                r.append(0)
        return tuple(r)


def spin(l):
    return {"u": 1, "d": -1}.get(l[2], 0)


def jp_spin(modes):
    r = sp.csr_matrix((modes.dim, modes.dim))
    for (n, ch, s) in modes.labels:
        if s == "u":
            r = r + modes.cd((n, ch, "u")) @ modes.c((n, ch, "d"))
    return r.tocsr()


def iso_sign(l):
    return -1.0 if (l[0] % 2) else 1.0


def jp_iso(member=lambda l: True, sign=iso_sign):
    def f(modes):
        r = sp.csr_matrix((modes.dim, modes.dim))
        for l in modes.labels:
            n, ch, s = l
            if s == "u" and member(l):
                r = r + sign(l) * (modes.cd((n, ch, "u")) @ modes.cd((n, ch, "d")))
        return r.tocsr()
    return f


def jp_orb(m_values):
    """SU(2) acting on the channel index; m_values[ch] = projection (descending by one from channel to channel)"""
    def f(modes):
        r = sp.csr_matrix((modes.dim, modes.dim))
        j = max(m_values)
        for (n, ch, s) in modes.labels:
            for ch2 in range(len(m_values)):
                if m_values[ch2] == m_values[ch] + 1 and (n, ch2, s) in modes.index:
                    m = m_values[ch]
                    r = r + math.sqrt(j * (j + 1) - m * (m + 1)) * (modes.cd((n, ch2, s)) @ modes.c((n, ch, s)))
        return r.tocsr()
    return f


QTOT = ("Q", lambda l: 1, lambda l: 0.5)
QX = lambda chs, name: (name, lambda l: 1 if l[1] in chs else 0, lambda l: 0.5 if l[1] in chs else 0.0)
SZ2 = ("Sz", spin, lambda l: 0)
ODD = ("P", lambda l: l[1] == 1)

SYMS = {}


def _reg(s):
    SYMS[s.name] = s


def f_up(n, ch):
    return [(1.0, "cd", (n, ch, "u"))]


def fops_spin(sym_ranks):
    return lambda nch: [[("cd", ch, "u", sym_ranks)] for ch in range(nch)]


# fops(nch) -> list per channel of list per 'perchannel' index of a list of components
#   component = (coefficient, "cd"|"c", (ch, s), {su2 name: rank 2j})
def F(ch, s, ranks=(), k="cd", x=1.0):
    return (x, k, (ch, s), dict(ranks))


SP = {"Sz": 1}
DO = ("d",)
R2 = math.sqrt(0.5)


def lr(ch):
    """local operators of the left/right channels in terms of the even (0) and odd (1) orbitals"""
    return [(R2, 0), (R2 if ch == 0 else -R2, 1)]


def fops_su2(ranks):
    return lambda nch: [[[F(ch, "u", ranks(ch))]] for ch in range(nch)]


fops_qs = fops_su2(lambda ch: SP)
fops_lr = lambda comp: (lambda nch: [[[c for x, o in lr(ch) for c in comp(x, o)]] for ch in range(nch)]
                        if nch == 2 else [[comp(1.0, 0)]])

_reg(Sym("QS", [1, 2, 3, 4], "ud", [QTOT, SZ2], [("add", "Q"), ("add1", "Sz")], su2=[("Sz", jp_spin)], fops=fops_qs, ops="sdtg"))
_reg(Sym("SPSU2", [1, 2, 3], "ud", [SZ2], [("add1", "Sz")], su2=[("Sz", jp_spin)], fops=fops_qs, ops="sdtg"))
_reg(Sym("QSZ", [1, 2, 3], "ud", [QTOT, SZ2], [("add", "Q"), ("add1", "Sz")], field=True,
         fops=lambda nch: [[[F(ch, "u"), F(ch, "d")]] for ch in range(nch)], ops="sdtg"))
_reg(Sym("SPU1", [1, 2], "ud", [SZ2], [("add1", "Sz")], field=True,
         fops=lambda nch: [[[F(ch, "u"), F(ch, "d")]] for ch in range(nch)], ops="sdtg"))
_reg(Sym("U1", [1, 2, 3], "ud", [QTOT], [("add", "Q")], perch=2,
         fops=lambda nch: [[[F(ch, "u")], [F(ch, "d")]] for ch in range(nch)], ops="sdg"))
_reg(Sym("NONE", [1, 2], "ud", [], [("dummy", "x")], perch=4,
         fops=lambda nch: [[[F(ch, "d")], [F(ch, "u")], [F(ch, "d", k="c")], [F(ch, "u", k="c")]] for ch in range(nch)], ops="sdg"))
ALLP = ("Pf", lambda l: True)
_reg(Sym("P", [1, 2], "ud", [], [("par", "Pf")], par=[ALLP], perch=4,
         fops=SYMS["NONE"].fops, ops="sdg"))
_reg(Sym("PP", [2], "ud", [], [("par", "Pa"), ("par", "Pb")], par=[("Pa", lambda l: l[1] == 0), ("Pb", lambda l: l[1] == 1)],
         perch=4, fops=SYMS["NONE"].fops, ops="sg"))
# the labels of the spinless types count one hole less with every site that is added
QSL = lambda chs, name: (name, lambda l: 1 if l[1] in chs else 0, lambda l: 1 if l[1] in chs and l[0] > 0 else 0)
_reg(Sym("SL", [1, 2, 3], "x", [QSL([0, 1, 2], "Q")], [("add", "Q")], fops=lambda nch: [[[F(ch, "x")]] for ch in range(nch)], ops="sdg"))
_reg(Sym("SL3", [3], "x", [QSL([c], "Q%d" % (c + 1)) for c in range(3)], [("add", "Q1"), ("add", "Q2"), ("add", "Q3")],
         fops=lambda nch: [[[F(ch, "x")]] for ch in range(nch)], ops="sdg"))
_reg(Sym("DBLQSZ", [2], "ud", [QX([0], "Q1"), QX([1], "Q2"), SZ2], [("add", "Q1"), ("add", "Q2"), ("add1", "Sz")], field=True,
         fops=lambda nch: [[[F(ch, "u"), F(ch, "d")]] for ch in range(nch)], ops="sd"))

IQ = ("I", lambda l: 1, lambda l: 1 / 2)          # 2*Iz = Q
IQ1 = ("I1", lambda l: 1 if l[1] == 0 else 0, lambda l: 0.5 if l[1] == 0 else 0)
IQ2 = ("I2", lambda l: 1 if l[1] == 1 else 0, lambda l: 0.5 if l[1] == 1 else 0)
iso_sign2 = lambda l: -1.0 if ((l[0] + l[1]) % 2) else 1.0      # ISO2: the two channels belong to opposite sublattices
IS = {"I": 1, "Sz": 1}
_reg(Sym("SU2", [1, 2], "ud", [IQ], [("add1", "I")], su2=[("I", jp_iso())], perch=2,
         fops=lambda nch: [[[F(ch, "u", {"I": 1})], [F(ch, "d", {"I": 1})]] for ch in range(nch)], ops="sdg"))
_reg(Sym("ISO", [1, 2, 3], "ud", [IQ, SZ2], [("add1", "I"), ("add1", "Sz")], su2=[("I", jp_iso()), ("Sz", jp_spin)],
         fops=fops_su2(lambda ch: IS), ops="sdt"))
_reg(Sym("ISO2", [1, 2], "ud", [IQ, SZ2], [("add1", "I"), ("add1", "Sz")],
         su2=[("I", jp_iso(sign=iso_sign2)), ("Sz", jp_spin)], fops=fops_su2(lambda ch: IS), ops="sdt"))
_reg(Sym("ISOSZ", [1, 2], "ud", [IQ, SZ2], [("add1", "I"), ("add1", "Sz")], su2=[("I", jp_iso())], field=True,
         fops=lambda nch: [[[F(ch, "u", {"I": 1}), F(ch, "d", {"I": 1})]] for ch in range(nch)], ops="sdtg"))
_reg(Sym("DBLSU2", [2], "ud", [IQ1, IQ2], [("add1", "I1"), ("add1", "I2")],
         su2=[("I1", jp_iso(lambda l: l[1] == 0)), ("I2", jp_iso(lambda l: l[1] == 1))], perch=2,
         fops=lambda nch: [[[F(ch, "u", {"I%d" % (ch + 1): 1})], [F(ch, "d", {"I%d" % (ch + 1): 1})]] for ch in range(nch)], ops="sd"))
_reg(Sym("DBLISOSZ", [2], "ud", [IQ1, IQ2, SZ2], [("add1", "I1"), ("add1", "I2"), ("add1", "Sz")],
         su2=[("I1", jp_iso(lambda l: l[1] == 0)), ("I2", jp_iso(lambda l: l[1] == 1))], field=True,
         fops=lambda nch: [[[F(ch, "u", {"I%d" % (ch + 1): 1}), F(ch, "d", {"I%d" % (ch + 1): 1})]] for ch in range(nch)], ops="sdt"))

_reg(Sym("QSLR", [2], "ud", [QTOT, SZ2], [("add", "Q"), ("add1", "Sz"), ("par", "P")], su2=[("Sz", jp_spin)], par=[ODD],
         fops=fops_lr(lambda x, o: [F(o, "u", SP, x=x)]), ops="spdt"))
_reg(Sym("SPSU2LR", [2], "ud", [SZ2], [("add1", "Sz"), ("par", "P")], su2=[("Sz", jp_spin)], par=[ODD],
         fops=fops_lr(lambda x, o: [F(o, "u", SP, x=x)]), ops="spdt"))
_reg(Sym("QSZLR", [2], "ud", [QTOT, SZ2], [("add", "Q"), ("add1", "Sz"), ("par", "P")], par=[ODD], field=True,
         fops=fops_lr(lambda x, o: [F(o, "u", x=x), F(o, "d", x=x)]), ops="spdt"))
_reg(Sym("SPU1LR", [1, 2], "ud", [SZ2], [("add1", "Sz"), ("par", "P")], par=[ODD], field=True,
         fops=fops_lr(lambda x, o: [F(o, "u", x=x), F(o, "d", x=x)]), ops="spdt"))
_reg(Sym("ISOLR", [2], "ud", [IQ, SZ2], [("add1", "I"), ("add1", "Sz"), ("par", "P")], par=[ODD],
         su2=[("I", jp_iso()), ("Sz", jp_spin)], fops=fops_lr(lambda x, o: [F(o, "u", IS, x=x)]), ops="spdt"))
_reg(Sym("ISOSZLR", [2], "ud", [IQ, SZ2], [("add1", "I"), ("add1", "Sz"), ("par", "P")], par=[ODD],
         su2=[("I", jp_iso())], field=True,
         fops=fops_lr(lambda x, o: [F(o, "u", {"I": 1}, x=x), F(o, "d", {"I": 1}, x=x)]), ops="spdt"))

TZ = ("T", lambda l: 2 * (1 - l[1]), lambda l: 0)
TZ1 = ("T", lambda l: (1 - l[1]), lambda l: 0)
_reg(Sym("QST", [3], "ud", [QTOT, SZ2, TZ], [("add", "Q"), ("add1", "Sz"), ("half", "T")],
         su2=[("Sz", jp_spin), ("T", jp_orb([1, 0, -1]))], fops=lambda nch: [[[F(0, "u", {"Sz": 1, "T": 2})]], [[]], [[]]], ops="sdto"))
_reg(Sym("SPSU2T", [3], "ud", [SZ2, TZ], [("add1", "Sz"), ("half", "T")],
         su2=[("Sz", jp_spin), ("T", jp_orb([1, 0, -1]))], fops=SYMS["QST"].fops, ops="sdto"))
_reg(Sym("QSTZ", [3], "ud", [QTOT, SZ2, TZ1], [("add", "Q"), ("add1", "Sz"), ("add", "T")], su2=[("Sz", jp_spin)],
         fops=lambda nch: [[[F(c, "u", SP) for c in range(3)]], [[]], [[]]], ops="sdto"))
_reg(Sym("QSZTZ", [3], "ud", [QTOT, SZ2, TZ1], [("add", "Q"), ("add1", "Sz"), ("add", "T")],
         fops=lambda nch: [[[F(c, s) for c in range(3) for s in "ud"]], [[]], [[]]], ops="sdto"))

QJ2M = {(0, "u"): (1, 1), (0, "d"): (1, -1), (1, "u"): (3, 3), (1, "d"): (3, -3), (2, "u"): (3, 1), (2, "d"): (3, -1)}
QJINV = {v: k for k, v in QJ2M.items()}


def jp_qj(modes):
    r = sp.csr_matrix((modes.dim, modes.dim))
    for (n, ch, s) in modes.labels:
        j, m = QJ2M[(ch, s)]
        if (j, m + 2) in QJINV:
            t = QJINV[(j, m + 2)]
            r = r + 0.5 * math.sqrt(j * (j + 2) - m * (m + 2)) * (modes.cd((n,) + t) @ modes.c((n, ch, s)))
    return r.tocsr()


_reg(Sym("QJ", [3], "ud", [QTOT, ("J", lambda l: QJ2M[l[1:]][1], lambda l: 0)], [("add", "Q"), ("add1", "J")],
         su2=[("J", jp_qj)], fops=lambda nch: [[[F(0, "u", {"J": 1})]], [[F(1, "u", {"J": 3})]], [[]]], ops="sdq"))

OMEGA = np.exp(2j * np.pi / 3)
C3M = ("P3", lambda l: l[1])


def c3(ch):
    return [(OMEGA ** (C3SIGN * ch * k) / math.sqrt(3), k) for k in range(3)]


C3SIGN = 1
_reg(Sym("QSC3", [3], "ud", [QTOT, SZ2], [("add", "Q"), ("add1", "Sz"), ("mod3", "P3")], su2=[("Sz", jp_spin)], mod3=[C3M],
         fops=lambda nch: [[[F(k, "u", SP, x=x) for x, k in c3(ch)]] for ch in range(3)], complex_only=True, ops="sdt"))
_reg(Sym("SPSU2C3", [3], "ud", [SZ2], [("add1", "Sz"), ("mod3", "P3")], su2=[("Sz", jp_spin)], mod3=[C3M],
         fops=SYMS["QSC3"].fops, complex_only=True, ops="sdt"))


# ---------------------------------------------------------------- cluster: multiplet basis and tensors
class Multiplets:
    """Multiplet basis of a (small) Fock space: for every invariant subspace an orthonormal set of highest-weight vectors."""

    def __init__(self, sym, modes):
        self.sym, self.modes = sym, modes
        self.lab = sym.cartan_values(modes)
        self.jp = sym.raising(modes)
        self.names = [n for n, _ in sym.su2]
        self.twoj_pos = self.names
        keys = sorted(self.lab)
        self.keys = keys
        tab = np.array([self.lab[k] for k in keys]).T
        groups = {}
        for i, row in enumerate(map(tuple, tab)):
            groups.setdefault(row, []).append(i)
        self.groups = groups
        self.hw = {}          # invar -> (dim x n) array; invar merges fermion parity sectors when the type does not resolve it
        self.hwlab = {}
        cas = sum((self.jp[n].T @ self.jp[n] for n in self.names), sp.csr_matrix((modes.dim, modes.dim))).tocsr()
        for row in sorted(groups):
            idx = groups[row]
            lab = dict(zip(keys, row))
            if any(lab[n] < 0 for n in self.names):
                continue
            if self.names:
                sub = cas[idx][:, idx].toarray()
                w, v = np.linalg.eigh(sub)
                v = v[:, w < 1e-8]
            else:
                v = np.eye(len(idx))
            if v.shape[1] == 0:
                continue
            W = np.zeros((modes.dim, v.shape[1]))
            W[idx] = v
            inv = sym.invar_of(lab)
            self.hwlab[inv] = lab
            self.hw.setdefault(inv, []).append((lab["_F"], W))
        self.twoj = {}
        for inv in self.hw:
            tj = {}
            for (kind, name), val in zip(sym.invar, inv):
                if name in self.names:
                    tj[name] = val - 1 if kind == "add1" else 2 * val
            self.twoj[inv] = tj
        self.invars = sorted(self.hw)

    def size(self, inv):
        return sum(W.shape[1] for _, W in self.hw[inv])

    def mult(self, inv):
        r = 1
        for n in self.names:
            r *= self.twoj[inv][n] + 1
        return r

    def lower(self, W, name, twoj, k):
        """apply the normalised lowering operator k times to highest-weight vectors"""
        jm = self.jp[name].T
        m = twoj
        for _ in range(k):
            W = jm @ W / (0.5 * math.sqrt(twoj * (twoj + 2) - m * (m - 2)))
            m -= 2
        return W

    def members(self, inv, W):
        """yield (dict name->2m, vectors) over the members of the multiplets with highest-weight vectors W"""
        out = [({}, W)]
        for n in self.names:
            tj = self.twoj[inv][n]
            out = [(dict(d, **{n: tj - 2 * k}), self.lower(V, n, tj, k)) for d, V in out for k in range(tj + 1)]
        return out


def tensor_component(modes, jp, top, ranks, mu):
    """component mu (dict 2m) of the tensor operator whose top component is given; ranks: dict 2j"""
    op = top
    for n, tj in ranks.items():
        m = tj
        while m > mu[n]:
            jm = jp[n].T
            op = (jm @ op - op @ jm) / (0.5 * math.sqrt(tj * (tj + 2) - m * (m - 2)))
            m -= 2
    return op
